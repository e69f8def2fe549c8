// U01 gostsum and gost12sum
#include "env.h"
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <dirent.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <unistd.h>
#include <limits.h>
#include <map>
using namespace ref;
static pbt::Rule r1("U01","files of generated sizes, contents and names; both programs run (instrumented) with generated options, argument lists, standard input in pieces, lists on standard input and check lists right, wrong, malformed and mutated; non-trivial: at least one file hashed or a list with at least one line read");
static pbt::Assume a1("U01","names contain no line break or NUL; check lists that contain malformed lines are held only to the exit status required by their well formed lines and to never crashing");
// scratch directory with the files of one case
static Bytes S(const std::string&s){return Bytes(s.begin(),s.end());}
static std::string T(const Bytes&b){return std::string(b.begin(),b.end());}
struct Dir{ std::string d; std::vector<std::string> made,dirs;
 Dir(){char t[]="/tmp/u01-XXXXXX";REQUIRE(mkdtemp(t),"mkdtemp");d=t;}
 std::string path(const std::string&n){return d+"/"+n;}
 bool put(const std::string&n,const Bytes&b){int f=open(path(n).c_str(),O_WRONLY|O_CREAT|O_TRUNC,0600);if(f<0)return false;size_t o=0;while(o<b.size()){ssize_t w=write(f,b.data()+o,b.size()-o);REQUIRE(w>0,"scratch write");o+=w;}close(f);made.push_back(n);return true;}
 bool dir(const std::string&n){if(mkdir(path(n).c_str(),0700))return false;dirs.push_back(n);return true;}
 ~Dir(){for(auto&n:made)unlink(path(n).c_str());for(auto&n:dirs)rmdir(path(n).c_str());rmdir(d.c_str());} };
struct Res{int status;bool crash;std::string out,err;};
// pieces: sizes of the writes that deliver the input
static Res run(Src&s,Dir&d,const std::string&prog,const std::vector<std::string>&args,const Bytes&in,bool pieces=false,const char*outto=nullptr,const char*infrom=nullptr){
 const char*bin=getenv(("PROG_"+prog).c_str());REQUIRE(bin,"program not built");int pi[2],po[2],pe[2];REQUIRE(!pipe2(pi,O_CLOEXEC)&&!pipe2(po,O_CLOEXEC)&&!pipe2(pe,O_CLOEXEC),"pipe");
 std::vector<char*> av{(char*)prog.c_str()};for(auto&a:args)av.push_back((char*)a.c_str());av.push_back(nullptr);
 pid_t p=fork();if(!p){if(chdir(d.d.c_str()))_exit(98);dup2(pi[0],0);dup2(po[1],1);dup2(pe[1],2);if(outto){int f=open(outto,O_WRONLY);if(f<0)_exit(98);dup2(f,1);close(f);}if(infrom){int f=open(infrom,O_RDONLY);if(f<0)_exit(98);dup2(f,0);close(f);}setenv("ASAN_OPTIONS","exitcode=99:detect_leaks=0",1);alarm(60);execv(bin,av.data());_exit(98);}
 close(pi[0]);close(po[1]);close(pe[1]);fcntl(pi[1],F_SETFL,O_NONBLOCK);signal(SIGPIPE,SIG_IGN);Res r;size_t o=0,piece=pieces?1+s.draw(s.pick({3u,70u,5000u,70000u})):1u<<20;bool wi=true,ro=true,re=true;if(in.empty()){close(pi[1]);wi=false;}
 while(wi||ro||re){struct pollfd f[3];int n=0,iw=-1,io=-1,ie=-1;if(wi){iw=n;f[n++]={pi[1],POLLOUT,0};}if(ro){io=n;f[n++]={po[0],POLLIN,0};}if(re){ie=n;f[n++]={pe[0],POLLIN,0};}poll(f,n,-1);char b[65536];
  if(iw>=0&&f[iw].revents){ssize_t w=write(pi[1],in.data()+o,std::min(piece,in.size()-o));if(w>0)o+=w;if(w<0&&errno!=EAGAIN)o=in.size();if(o==in.size()){close(pi[1]);wi=false;}}
  if(io>=0&&f[io].revents){ssize_t k=read(po[0],b,sizeof b);if(k>0)r.out.append(b,k);else{close(po[0]);ro=false;}}
  if(ie>=0&&f[ie].revents){ssize_t k=read(pe[0],b,sizeof b);if(k>0){if(r.err.size()<20000)r.err.append(b,k);}else{close(pe[0]);re=false;}} }
 int st;while(waitpid(p,&st,0)<0);r.status=WIFEXITED(st)?WEXITSTATUS(st):-1;r.crash=!WIFEXITED(st)||r.status==99||r.status==98;
 if(r.crash)pbt::fail("%s crashed (status %x): %s",prog.c_str(),st,r.err.substr(0,1500).c_str());return r; }
struct Opt{std::string prog;std::vector<std::string> a;HashId h;};
static Opt gen_opt(Src&s){Opt o;if(s.flip()){o.prog="gostsum";o.h=H_94;if(s.chance(1,3)){o.a.push_back("-t");o.h=H_94TEST;}if(s.chance(1,4))o.a.push_back("-b");}else{o.prog="gost12sum";o.h=H_12_256;if(s.chance(1,2)){o.a.push_back("-l");o.h=H_12_512;}}label(o.prog);return o;}
static std::string sum(HashId h,const Bytes&m){Bytes d=hash(h,m);if(h==H_94||h==H_94TEST)std::reverse(d.begin(),d.end());return tohex(d);}
static Bytes content(Src&s){size_t n;switch(s.draw(8)){case 0:n=0;break;case 1:n=s.pick<size_t>({1,31,32,33,63,64,65,127,128,129});break;case 2:n=s.chance(1,6)?262144-40+s.draw(80):s.chance(1,6)?65536-2+s.draw(4):4096-2+s.draw(4);break;case 3:n=s.draw(3000);break;default:n=s.draw(200);}return s.bytes(n);}
static std::string name(Src&s){ static const char*tame="abcdefgXYZ019._+=%s-";for(;;){size_t n=s.chance(1,12)?240+s.draw(16):1+s.draw(12);std::string r;int mode=s.draw(3);for(size_t i=0;i<n;i++){char c;if(mode==0)c=tame[s.draw(20)];else if(mode==1)c=s.pick({' ',' ','*','\\','%','n','-','\t','a','0','"'});else c=(char)(1+s.draw(255));if(c=='/'||c=='\n'||c=='\r')c='_';r+=c;}if(r=="."||r=="..")continue;return r;} }
// a longer path to the same file
static std::string spell(Src&s,const std::string&n,size_t max=4095){ if(!s.chance(1,8))return n;std::string p;size_t want=s.chance(1,2)?max-s.draw(80):s.draw(max+1);while(p.size()+n.size()+2<=want)p+="./";if(p.size()&&p.size()+n.size()<want)p.insert(1,"/");label("long path");return (p+n).size()<=max?p+n:n; }
struct File{std::string n;Bytes b;bool ok;};
static std::vector<File> files(Src&s,Dir&d,size_t n){ std::vector<File> v;std::map<std::string,int> seen;for(size_t i=0;i<n;i++){File f;f.n=name(s);f.ok=true;if(seen[f.n]++)continue;int k=s.draw(10);if(k==0){f.ok=false;label("missing file");}else if(k==1&&d.dir(f.n)){f.ok=false;label("directory");}else{f.b=content(s);REQUIRE(d.put(f.n,f.b),"scratch file");}v.push_back(f);}return v; }
SUB("U01",generate,700,12000,8){ Dir d;Opt o=gen_opt(s);auto fs=files(s,d,1+s.draw(4));auto a=o.a;if(fs[0].n[0]=='-'||s.chance(1,3))a.push_back("--");else for(auto&f:fs)if(f.n[0]=='-'){a.push_back("--");break;}
 bool bad=false;std::string want;for(auto&f:fs){std::string p=spell(s,f.n);a.push_back(p);if(f.ok){want+=sum(o.h,f.b)+" "+p+"\n";nontrivial();}else bad=true;}
 Res r=run(s,d,o.prog,a,{});note("%s %zu files",o.prog.c_str(),fs.size());REQUIRE(r.out==want,"%s printed\n%s\nexpected\n%s",o.prog.c_str(),hex(S(r.out)).c_str(),hex(S(want)).c_str());REQUIRE((r.status!=0)==bad,"%s: exit status %d, %s",o.prog.c_str(),r.status,bad?"a file is unreadable":"all files are readable"); }
SUB("U01",standard_input,500,9000,8){ Dir d;Opt o=gen_opt(s);Bytes m=content(s);nontrivial();note("%s %zu bytes",o.prog.c_str(),m.size());Res r=run(s,d,o.prog,o.a,m,true);REQUIRE(r.out==sum(o.h,m)+" -\n","%s of %zu bytes of standard input: %s",o.prog.c_str(),m.size(),r.out.c_str());REQUIRE(r.status==0,"exit status %d",r.status); }
SUB("U01",names_from_input,400,7000,8){ Dir d;Opt o=gen_opt(s);o.prog="gost12sum";o.a={"-x"};o.h=H_12_256;auto fs=files(s,d,1+s.draw(4));std::string in,want;bool bad=false,odd=false;size_t i=0;for(auto&f:fs){std::string p=spell(s,f.n,4090);in+=p;if(++i<fs.size()||s.flip())in+=s.chance(1,4)?"\r\n":"\n";if(f.ok){want+=sum(o.h,f.b)+" "+p+"\n";nontrivial();}else bad=true;if(s.chance(1,10)){in+="\n";odd=true;}}
 label(odd?"empty lines":"names only");Res r=run(s,d,o.prog,o.a,S(in),s.flip());REQUIRE(r.out==want,"gost12sum -x printed\n%s\nexpected\n%s",hex(S(r.out)).c_str(),hex(S(want)).c_str());if(!odd)REQUIRE((r.status!=0)==bad,"exit status %d, %s",r.status,bad?"a file is unreadable":"all files are readable"); }
struct Line{std::string text;bool form;bool good;std::string shown;};
static std::string flipdigit(Src&s,std::string h){size_t i=s.draw(h.size());static const char*D="0123456789abcdef";const char*p=strchr(D,h[i]);h[i]=D[((p?p-D:0)+1+s.draw(15))%16];return h;}
SUB("U01",check,1300,24000,8){ Dir d;Opt o=gen_opt(s);bool g12=o.prog=="gost12sum";auto fs=files(s,d,1+s.draw(5));std::vector<Line> ls;bool allform=true,allgood=true;
 size_t n=s.draw(7);for(size_t i=0;i<n;i++){const File&f=fs[s.draw(fs.size())];HashId h=g12?(s.flip()?H_12_256:H_12_512):o.h;std::string dg=sum(h,f.b),p=spell(s,f.n);Line l{dg+" "+p,true,f.ok,p};switch(s.draw(g12?9:8)){case 0:l.text=flipdigit(s,dg)+" "+p;l.good=false;label("wrong digest");break;case 1:if(f.b.size()){Bytes e=f.b;e[s.draw(e.size())]^=1<<s.draw(8);l.text=sum(h,e)+" "+p;l.good=false;label("digest of an altered file");}break;case 8:{std::string t=dg.substr(0,2*s.draw(dg.size()/2));if(t.size()&&t.size()!=64&&t.size()!=128){l.text=t+" "+p;l.good=false;label("digest of another length");}break;}
   case 2:if(s.chance(1,3)){l.form=false;switch(s.draw(6)){case 0:l.text="";break;case 1:l.text=dg;break;case 2:l.text=" "+p;break;case 3:l.text=std::string("x")+l.text;break;case 4:l.text=dg+" ";break;default:l.text=s.pick<std::string>({"#comment","a"," ","zz zz"});}label("malformed line");}break;default:break;}
  if(!l.form)allform=false;else if(!l.good)allgood=false;ls.push_back(l);}
 std::string list;for(size_t i=0;i<ls.size();i++){list+=ls[i].text;if(i+1<ls.size()||s.flip())list+=s.chance(1,8)?"\r\n":"\n";else if(ls[i].form)label("no final line break");}
 if(ls.size())nontrivial();bool v=s.chance(1,3);auto a=o.a;a.erase(std::remove_if(a.begin(),a.end(),[](const std::string&x){return x=="-b";}),a.end());if(v)a.push_back("-v");Bytes in;bool file=!s.chance(1,3);std::string ln="list";while(1){bool c=false;for(auto&f:fs)if(f.n==ln)c=true;if(!c)break;ln+="x";}
 if(file){d.put(ln,S(list));if(s.flip())a.push_back("-c"+ln);else{a.push_back("-c");a.push_back(ln);}}else{a.push_back("-c");in=S(list);}
 if(file&&s.chance(1,25)){label("list is a directory");a.back()=a.back().substr(0,2)=="-c"?"-c.":".";Res r=run(s,d,o.prog,a,{});REQUIRE(r.status!=0,"%s: exit status 0 for a list that cannot be read",o.prog.c_str());return;}
 Res r=run(s,d,o.prog,a,in,s.flip());note("%s %zu lines%s",o.prog.c_str(),ls.size(),allform?"":" (some malformed)");
 if(!allgood)REQUIRE(r.status!=0,"%s: exit status 0 although a listed file is unreadable or does not match\nlist (hex) %s",o.prog.c_str(),hex(S(list)).c_str());
 else if(allform)REQUIRE(r.status==0,"%s: exit status %d although every listed file matches\nlist (hex) %s\n%s",o.prog.c_str(),r.status,hex(S(list)).c_str(),r.err.substr(0,800).c_str());
 if(v&&allform)for(auto&l:ls)if(l.good)REQUIRE(r.err.find(l.shown+"\tOK\n")!=std::string::npos,"-v does not report file (hex) %s as matching",hex(S(l.shown)).c_str()); }
SUB("U01",no_output,200,4000,8){ // digests that cannot be written, and standard input that cannot be read, are failures
 Dir d;Opt o=gen_opt(s);nontrivial();Bytes m=content(s);switch(s.draw(4)){
 case 0:{note("standard input, output refused");Res r=run(s,d,o.prog,o.a,m,true,"/dev/full");REQUIRE(r.status!=0,"%s: exit status 0 although the digest was not written",o.prog.c_str());break;}
 case 1:{note("files, output refused");size_t n=1+s.draw(s.flip()?3:40);auto a=o.a;for(size_t i=0;i<n;i++){std::string f="f"+std::to_string(i);d.put(f,s.bytes(s.draw(50)));a.push_back(f);}Res r=run(s,d,o.prog,a,{},false,"/dev/full");REQUIRE(r.status!=0,"%s: exit status 0 although the digests were not written",o.prog.c_str());break;}
 case 2:{note("names from input, output refused");d.put("f",m);Res r=run(s,d,"gost12sum",{"-x"},S("f\n"),false,"/dev/full");REQUIRE(r.status!=0,"gost12sum -x: exit status 0 although the digest was not written");break;}
 default:{bool x=s.flip(),c=!x&&s.flip();note("standard input is a directory%s",x?", -x":c?", -c":"");auto a=o.a;if(x){o.prog="gost12sum";a={"-x"};}if(c)a.push_back("-c");Res r=run(s,d,o.prog,a,{},false,nullptr,".");REQUIRE(r.status!=0&&r.out.empty(),"%s: exit status %d with standard input unreadable; printed %s",o.prog.c_str(),r.status,r.out.c_str());}} }
SUB("U01",usage,200,3000,8){ // options that do not exist, lists that do not exist: no digest, and not a success
 Dir d;Opt o=gen_opt(s);nontrivial();auto a=o.a;d.put("f",content(s));int k=s.draw(3);note("%s usage %d",o.prog.c_str(),k);switch(k){
 case 0:{std::string bad=s.pick<std::string>({"-z","-q","--nonsense","-?","-L","-T","-V"});if(bad[1]!='-'&&s.flip())bad=(o.prog=="gostsum"?"-v":"-v")+bad.substr(1);a.insert(a.begin()+s.draw(a.size()+1),bad);if(s.flip())a.push_back("f");break;}
 case 1:a.push_back("-cmissing");break;
 default:a.push_back("-c");a.push_back("missing");}
 Res r=run(s,d,o.prog,a,S(sum(o.h,content(s))+" f\n"));REQUIRE(r.status!=0,"%s: exit status 0",o.prog.c_str());REQUIRE(r.out.empty(),"%s printed %s",o.prog.c_str(),r.out.substr(0,200).c_str());REQUIRE(!r.err.empty(),"%s: nothing reported",o.prog.c_str()); }
SUB("U01",hostile_list,900,18000,8){ Dir d;Opt o=gen_opt(s);Bytes b=content(s);d.put("f",b);std::string list;size_t n=s.draw(6);for(size_t i=0;i<n;i++){switch(s.draw(7)){case 0:list+=sum(o.h,b)+" f\n";break;case 1:list+=std::string(s.draw(140),s.pick({'0','a','F',' '}))+s.pick<std::string>({"\n"," f\n"," \n",""," ","\r\n"});break;case 2:list+=T(s.bytes(s.draw(200)));break;case 3:list+=s.pick<std::string>({"\n","\r\n","\n\n"," \n","\r\r\n"});break;case 4:list+=sum(o.h,b)+" "+std::string(s.pick({4000,4028,4029,4030,4031,4032,4094,4095,4096,5000})+(int)s.draw(3),'f')+"\n";break;case 5:list+=std::string(1,'\0')+s.pick<std::string>({"\n","","f\n"});break;default:list+=std::string(s.pick({4090,4094,4095,4096,8190})+(int)s.draw(3),s.pick({' ','0','\r','f'}))+s.pick<std::string>({"\n",""," f\n"});}}
 size_t m=s.draw(3);for(size_t i=0;i<m&&list.size();i++){size_t p=s.draw(list.size());switch(s.draw(3)){case 0:list[p]=(char)s.draw(256);break;case 1:list.erase(p,1+s.draw(8));break;default:list.resize(p);}}
 if(list.size())nontrivial();auto a=o.a;a.push_back(o.prog=="gost12sum"&&s.chance(1,4)?"-x":"-c");if(s.flip()&&a.back()=="-c")a.push_back("-v");note("%s %s %zu bytes",o.prog.c_str(),a.back().c_str(),list.size());Res r=run(s,d,o.prog,a,S(list),s.chance(1,3));REQUIRE(r.status>=0&&r.status<=2,"exit status %d\n%s",r.status,r.err.substr(0,500).c_str()); }
int main(int c,char**v){return pbt::run(c,v,env_setup);}
