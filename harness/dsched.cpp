#include "dsched.h"
#include <pthread.h>
#include <semaphore.h>
#include <sched.h>
#include <dlfcn.h>
#include <cerrno>
#include <cstdlib>
#include <cstdio>
#include <unistd.h>
#include <openssl/crypto.h>
namespace sched {
static bool active=false; static thread_local int me=-1; static thread_local int nopre=0; static thread_local bool inside=false;
static std::vector<sem_t*> sem; static std::vector<char> alive; static const std::vector<Switch>*plan; static size_t pi; static uint64_t left,fair; static Stat st; static unsigned nlive;
static pthread_t*ths; static sem_t alldone;
int self(){return active?me:-1;}
static void load(){ if(pi<plan->size())left=(*plan)[pi].after;else left=fair; }
static int pick(unsigned to,bool allow_self){ int n=alive.size();std::vector<int> c;for(int i=1;i<=n;i++){int t=((me<0?0:me)+i)%n;if(alive[t]&&(allow_self||t!=me))c.push_back(t);}if(c.empty())return -1;return c[to%c.size()]; }
static void give(int t){ st.switches++;int m=me;sem_post(sem[t]);if(m>=0&&alive[m])while(sem_wait(sem[m])!=0&&errno==EINTR); }
void point(){ if(!active||me<0||nopre||inside)return;st.points++;if(left>1){left--;return;}inside=true;unsigned to=0;if(pi<plan->size()){to=(*plan)[pi].to;pi++;}load();int t=pick(to,false);if(t>=0)give(t);inside=false; }
static void blocked(){ // the lock is held by a thread that is not running
 inside=true;st.blocked++;int t=pick(0,false);if(t<0&&st.blocked<1000000){usleep(10);inside=false;return;}if(t<0||st.blocked>2000000){fprintf(stderr,"DEADLOCK: a thread waits for a lock nobody will release\n");_exit(78);}give(t);inside=false; }
struct Arg{int i;const std::function<void()>*f;};
static void*body(void*p){ Arg a=*(Arg*)p;me=a.i;while(sem_wait(sem[me])!=0&&errno==EINTR);(*a.f)();OPENSSL_thread_stop();inside=true;alive[me]=0;nlive--;int t=pick(0,false);int m=me;me=-1;(void)m;if(t>=0)sem_post(sem[t]);else sem_post(&alldone);return nullptr; }
Stat run(const std::vector<std::function<void()>>&b,const std::vector<Switch>&p,uint64_t f){ size_t n=b.size();st=Stat();plan=&p;pi=0;fair=f;load();std::vector<sem_t> s(n);std::vector<pthread_t> th(n);std::vector<Arg> a(n);sem.clear();alive.assign(n,1);nlive=n;sem_init(&alldone,0,0);
 for(size_t i=0;i<n;i++){sem_init(&s[i],0,0);sem.push_back(&s[i]);a[i]={(int)i,&b[i]};}active=true;for(size_t i=0;i<n;i++)pthread_create(&th[i],NULL,body,&a[i]);sem_post(sem[0]);while(sem_wait(&alldone)!=0&&errno==EINTR);active=false;for(size_t i=0;i<n;i++){pthread_join(th[i],NULL);sem_destroy(&s[i]);}return st; }
static bool mine(){return active&&me>=0&&!inside;}
template<class T,class F> static int take(T*l,F tr){ if(!mine()){int r;while((r=tr(l))==EBUSY||r==EAGAIN)sched_yield();return r;}point();int r;while((r=tr(l))==EBUSY)blocked();return r; }
static bool once_on(){nopre++;return true;} static void once_off(){nopre--;}
}
// the waiting functions of the thread library, so that a waiting thread lets the others run
extern "C" {
int pthread_rwlock_wrlock(pthread_rwlock_t*l){return sched::take(l,pthread_rwlock_trywrlock);}
int pthread_rwlock_rdlock(pthread_rwlock_t*l){return sched::take(l,pthread_rwlock_tryrdlock);}
int pthread_mutex_lock(pthread_mutex_t*l){return sched::take(l,pthread_mutex_trylock);}
int pthread_once(pthread_once_t*o,void(*f)(void)){ static int(*real)(pthread_once_t*,void(*)(void));if(!real)*(void**)&real=dlsym(RTLD_NEXT,"pthread_once");sched::once_on();int r=real(o,f);sched::once_off();return r; }
void __sanitizer_cov_trace_pc(void){sched::point();}
}
