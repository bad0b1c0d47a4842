// See vsched.h.  This file is compiled without instrumentation.
#include "vsched.h"
#include <pthread.h>
#include <semaphore.h>
#include <dlfcn.h>
#include <unistd.h>
#include <errno.h>
#include <time.h>
#include <sched.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <map>
#include <deque>
#include <algorithm>
namespace {
enum St { READY, B_MUTEX, B_COND, B_JOIN, B_GUARD, B_QUIET, B_SEM, DONE };
struct T { int id, label; St st; const void* on; int fut; bool timed, tmo; struct timespec until; double prio; int hold; int joined; pthread_t pt; void*(*fn)(void*); void* arg; void* ret;
  T():id(0),label(-1),st(READY),on(0),fut(0),timed(false),tmo(false),prio(0),hold(0),joined(-1),fn(0),arg(0),ret(0){} };
struct M { int owner, count; M():owner(-1),count(0){} };
struct S { long val; };
bool g_on=false; std::vector<T*>* g_t; int g_cur=0; vs::Config g_cfg; void (*g_stuck)(const std::vector<int>&)=0;
std::map<const void*,M>* g_m; std::map<const void*,int>* g_guard; std::map<const void*,S>* g_sem;
std::vector<std::pair<int,int> >* g_ch; size_t g_gp=0; long g_sync=0,g_pts=0; struct timespec g_off={0,0};
std::vector<long>* g_change; uint64_t g_rs;
__thread T* me=0; __thread int in_=0; struct In { In(){ ++in_; } ~In(){ --in_; } };
uint64_t rnd(){ g_rs+=0x9E3779B97F4A7C15ULL; uint64_t z=g_rs; z=(z^(z>>30))*0xBF58476D1CE4E5B9ULL; z=(z^(z>>27))*0x94D049BB133111EBULL; return z^(z>>31); }
double rndd(){ return double(rnd()>>11)*(1.0/9007199254740992.0); }
int rndi(int n){ return int(rnd()%uint64_t(n)); }
template<class F> F real(const char* n,const char* v=0){ void* p= v? dlvsym(RTLD_NEXT,n,v):0; if(!p) p=dlsym(RTLD_NEXT,n); if(!p){ (void)!write(2,"dlsym failed\n",13); _exit(98); } return (F)p; }
#define REAL(name,...) static auto r_=real<decltype(&name)>(#name __VA_OPT__(,) __VA_ARGS__)
void fwait(int* a){ while(__atomic_load_n(a,__ATOMIC_ACQUIRE)==0) syscall(SYS_futex,a,FUTEX_WAIT,0,0,0,0); __atomic_store_n(a,0,__ATOMIC_RELEASE); }
void fpost(int* a){ __atomic_store_n(a,1,__ATOMIC_RELEASE); syscall(SYS_futex,a,FUTEX_WAKE,1,0,0,0); }
bool on(){ return g_on && me && me->st!=DONE && in_==0; }
void stuck(){ std::vector<int> b; for(size_t i=0;i<g_t->size();++i) if((*g_t)[i]->st!=DONE && (*g_t)[i]->label>=0) b.push_back((*g_t)[i]->label); in_=0; me->hold=1000000; g_on=false; if(g_stuck) g_stuck(b); _exit(97); }
void jump(const struct timespec& u){ // moves the virtual clocks past u
  struct timespec n; syscall(SYS_clock_gettime, u.tv_sec>1000000000? CLOCK_REALTIME:CLOCK_MONOTONIC, &n);
  long long d=(u.tv_sec-n.tv_sec)*1000000000LL+(u.tv_nsec-n.tv_nsec)+1000; long long o=g_off.tv_sec*1000000000LL+g_off.tv_nsec; if(d>o){ g_off.tv_sec=d/1000000000LL; g_off.tv_nsec=d%1000000000LL; } }
void timeout(T* t){ t->st=READY; t->tmo=true; jump(t->until); }
// chooses the next thread to run; cur may continue
// turn: the list names whose critical section is next; a thread's turn ends when it holds no mutex any more or blocks
bool g_turns=false;
int held(int id){ int n=0; for(auto& x:*g_m) if(x.second.owner==id) ++n; return n; }
void turn_over(){ if(g_turns && g_gp<g_cfg.guide.size() && g_cfg.guide[g_gp]==me->id && held(me->id)==0) ++g_gp; }
T* pick(bool sync,bool force){
  std::vector<T*> r; bool curok=false;
  if(g_cfg.kind=="turn"){ if((*g_t)[0]->st==B_QUIET) g_turns=true;
    if(!g_turns){ if((*g_t)[g_cur]->st==READY) return (*g_t)[g_cur]; }
    else while(g_gp<g_cfg.guide.size()){ int w=g_cfg.guide[g_gp]; if(w>=int(g_t->size())){ ++g_gp; continue; } T* t=(*g_t)[w]; 
      if(t->st==B_COND){ if(t->timed) timeout(t); else t->st=READY; } // woken by chance at the latest now
      if(t->st==READY) return t; ++g_gp; } }
  if(sync && g_cfg.pspur>0 && g_cfg.kind!="dfs"){ if(rndd()<g_cfg.pspur){ std::vector<T*> c; for(size_t i=0;i<g_t->size();++i) if((*g_t)[i]->st==B_COND) c.push_back((*g_t)[i]); if(!c.empty()){ T* t=c[rndi(c.size())]; if(t->timed && (rnd()&1)) timeout(t); else t->st=READY; } } }
  for(int tries=0;tries<3;++tries){
    for(size_t i=0;i<g_t->size();++i){ T* t=(*g_t)[i]; if(t->st==READY){ if(int(i)==g_cur) curok=true; r.push_back(t); } }
    if(!r.empty()) break;
    std::vector<T*> c; for(size_t i=0;i<g_t->size();++i) if((*g_t)[i]->st==B_COND && (*g_t)[i]->timed) c.push_back((*g_t)[i]);
    if(!c.empty()){ T* b=c[0]; for(size_t i=1;i<c.size();++i) if(c[i]->until.tv_sec<b->until.tv_sec||(c[i]->until.tv_sec==b->until.tv_sec&&c[i]->until.tv_nsec<b->until.tv_nsec)) b=c[i]; timeout(b); continue; }
    for(size_t i=0;i<g_t->size();++i) if((*g_t)[i]->st==B_QUIET){ (*g_t)[i]->st=READY; break; }
  }
  if(r.empty()) stuck();
  if(r.size()==1) return r[0];
  T* cur=(*g_t)[g_cur];
  if(g_cfg.kind=="dfs"){ // option 0: continue (or the first); others only at synchronisation points
    if(!sync && curok) return cur;
    if(curok && !force){ r.erase(std::find(r.begin(),r.end(),cur)); r.insert(r.begin(),cur); }
    int k= g_gp<g_cfg.guide.size()? g_cfg.guide[g_gp] : 0; ++g_gp; if(k>=int(r.size())) k=int(r.size())-1; g_ch->push_back(std::make_pair(int(r.size())*2+(curok&&!force?1:0),k)); return r[k]; }
  if(g_cfg.kind=="guide" && sync){ // prefers the listed thread; when it cannot run, the list waits for it unless the current thread cannot go on either
    if(g_gp<g_cfg.guide.size()){ int w=g_cfg.guide[g_gp]; for(size_t i=0;i<r.size();++i) if(r[i]->id==w){ ++g_gp; return r[i]; } if(curok&&!force) return cur; ++g_gp; return r[rndi(r.size())]; } }
  if(g_cfg.kind=="pct"){ if(curok && std::binary_search(g_change->begin(),g_change->end(),g_pts)) { cur->prio=-double(g_pts); } if(force) cur->prio=-double(g_pts);
    T* b=r[0]; for(size_t i=1;i<r.size();++i) if(r[i]->prio>b->prio) b=r[i]; return b; }
  if(curok && !force && rndd()>=(sync?g_cfg.psync:g_cfg.pmem)) return cur;
  if(curok && r.size()>1) r.erase(std::find(r.begin(),r.end(),cur));
  return r[rndi(r.size())];
}
void go(T* n){ T* c=me; if(n==c){ return; } g_cur=n->id; fpost(&n->fut); if(c->st!=DONE || true){ if(c->fn && c->st==DONE) return; fwait(&c->fut); } }
void point(bool sync,bool force=false){ ++g_pts; if(sync) ++g_sync; if(g_pts>20000000L) stuck(); if(!sync && me->hold>0) return; go(pick(sync,force)); }
void block(St s,const void* o){ turn_over(); me->st=s; me->on=o; go(pick(true,false)); }
void wake(St s,const void* o){ for(size_t i=0;i<g_t->size();++i){ T* t=(*g_t)[i]; if(t->st==s && t->on==o) t->st=READY; } }
void mlock(const void* p){ point(true); for(;;){ M& m=(*g_m)[p]; if(m.owner<0||m.owner==me->id){ if(m.owner==me->id){ int kind=((pthread_mutex_t*)p)->__data.__kind&3; if(kind!=PTHREAD_MUTEX_RECURSIVE){ block(B_MUTEX,p); continue; } } m.owner=me->id; ++m.count; return; } block(B_MUTEX,p); } }
void munlock_quiet(const void* p,int* saved){ M& m=(*g_m)[p]; if(saved){ *saved=m.count; m.count=0; } else if(m.count>0) --m.count; if(m.count==0){ m.owner=-1; wake(B_MUTEX,p); if(!saved) turn_over(); } }
void mrelock(const void* p,int n){ for(;;){ M& m=(*g_m)[p]; if(m.owner<0){ m.owner=me->id; m.count=n; return; } block(B_MUTEX,p); } }
int cwait(pthread_cond_t* c,pthread_mutex_t* m,const struct timespec* ts){ point(true); int n; munlock_quiet(m,&n); me->timed=ts!=0; me->tmo=false; if(ts) me->until=*ts; block(B_COND,c); bool t=me->tmo; me->timed=false; me->tmo=false; mrelock(m,n); return t?ETIMEDOUT:0; }
void csignal(pthread_cond_t* c,bool all){ point(true); std::vector<T*> w; for(size_t i=0;i<g_t->size();++i) if((*g_t)[i]->st==B_COND&&(*g_t)[i]->on==c) w.push_back((*g_t)[i]); if(w.empty()) return; if(all){ for(auto t:w) t->st=READY; } else w[g_cfg.kind=="dfs"?0:rndi(w.size())]->st=READY; }
void* tramp(void* a){ T* t=(T*)a; in_=1; me=t; fwait(&t->fut); in_=0; t->ret=t->fn(t->arg); in_=1; t->st=DONE; wake(B_JOIN,t); T* n=pick(true,false); g_cur=n->id; fpost(&n->fut); return t->ret; }
}
namespace vs {
void begin(const Config& c, void (*s)(const std::vector<int>&)){ In in;
  g_cfg=c; g_stuck=s; g_t=new std::vector<T*>; g_m=new std::map<const void*,M>; g_guard=new std::map<const void*,int>; g_sem=new std::map<const void*,S>; g_ch=new std::vector<std::pair<int,int> >; g_change=new std::vector<long>;
  g_rs=c.seed*0x2545F4914F6CDD1DULL+77; T* t=new T; t->id=0; t->prio=rndd(); g_t->push_back(t); me=t; g_cur=0;
  for(int i=0;i<c.changes;++i) g_change->push_back(1+long(rnd()%uint64_t(c.steps>0?c.steps:1))); std::sort(g_change->begin(),g_change->end()); g_on=true; }
int self(){ return me?me->id:-1; }
void name(int id){ if(me) me->label=id; }
void quiesce(){ if(!on()) return; In in; block(B_QUIET,0); }
std::vector<int> blocked(){ In in; std::vector<int> b; for(auto t:*g_t) if(t->st!=DONE&&t->label>=0) b.push_back(t->label); return b; }
int alive(){ In in; int n=0; for(auto t:*g_t) if(t->id&&t->st!=DONE) ++n; return n; }
int alive_unlabelled(){ In in; int n=0; for(auto t:*g_t) if(t->id&&t->st!=DONE&&t->label<0) ++n; return n; }
int created(){ return int(g_t->size())-1; }
long syncs(){ return g_sync; } long points(){ return g_pts; }
const std::vector<std::pair<int,int> >& choices(){ return *g_ch; }
void hold(int d){ if(me) me->hold+=d; }
}
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m){ if(on()){ In in; mlock(m); return 0; } REAL(pthread_mutex_lock); return r_(m); }
int pthread_mutex_trylock(pthread_mutex_t* m){ if(on()){ In in; point(true); M& x=(*g_m)[m]; if(x.owner<0||(x.owner==me->id&&(m->__data.__kind&3)==PTHREAD_MUTEX_RECURSIVE)){ x.owner=me->id; ++x.count; return 0; } return EBUSY; } REAL(pthread_mutex_trylock); return r_(m); }
int pthread_mutex_unlock(pthread_mutex_t* m){ if(on()){ In in; munlock_quiet(m,0); point(true); return 0; } REAL(pthread_mutex_unlock); return r_(m); }
int pthread_mutex_destroy(pthread_mutex_t* m){ if(g_on) g_m->erase(m); REAL(pthread_mutex_destroy); return r_(m); }
int pthread_cond_wait(pthread_cond_t* c,pthread_mutex_t* m){ if(on()){ In in; return cwait(c,m,0); } REAL(pthread_cond_wait,"GLIBC_2.3.2"); return r_(c,m); }
int pthread_cond_timedwait(pthread_cond_t* c,pthread_mutex_t* m,const struct timespec* t){ if(on()){ In in; return cwait(c,m,t); } REAL(pthread_cond_timedwait,"GLIBC_2.3.2"); return r_(c,m,t); }
int pthread_cond_clockwait(pthread_cond_t* c,pthread_mutex_t* m,clockid_t k,const struct timespec* t){ if(on()){ In in; return cwait(c,m,t); } REAL(pthread_cond_clockwait); return r_(c,m,k,t); }
int pthread_cond_signal(pthread_cond_t* c){ if(on()){ In in; csignal(c,false); return 0; } REAL(pthread_cond_signal,"GLIBC_2.3.2"); return r_(c); }
int pthread_cond_broadcast(pthread_cond_t* c){ if(on()){ In in; csignal(c,true); return 0; } REAL(pthread_cond_broadcast,"GLIBC_2.3.2"); return r_(c); }
int pthread_create(pthread_t* p,const pthread_attr_t* a,void*(*f)(void*),void* x){ REAL(pthread_create); if(!on()) return r_(p,a,f,x); In in;
  T* t=new T; t->id=int(g_t->size()); t->prio=rndd(); t->fn=f; t->arg=x; g_t->push_back(t); int e=r_(p,a,tramp,t); if(e){ g_t->pop_back(); return e; } t->pt=*p; point(true); return 0; }
int pthread_join(pthread_t p,void** r){ if(on()){ In in; point(true); T* t=0; for(size_t i=g_t->size();i-->0;) if(i && pthread_equal((*g_t)[i]->pt,p)){ t=(*g_t)[i]; break; } while(t && t->st!=DONE) block(B_JOIN,t); } REAL(pthread_join); return r_(p,r); }
int sched_yield(void) noexcept { if(on()){ In in; point(true,true); return 0; } return int(syscall(SYS_sched_yield)); }
int clock_gettime(clockid_t k,struct timespec* t) noexcept { int e=int(syscall(SYS_clock_gettime,k,t)); if(g_on){ t->tv_sec+=g_off.tv_sec; t->tv_nsec+=g_off.tv_nsec; if(t->tv_nsec>=1000000000){ t->tv_nsec-=1000000000; ++t->tv_sec; } } return e; }
int nanosleep(const struct timespec* q,struct timespec*){ if(on()){ In in; struct timespec n; clock_gettime(CLOCK_MONOTONIC,&n); n.tv_sec+=q->tv_sec; n.tv_nsec+=q->tv_nsec; jump(n); point(true,true); return 0; } return int(syscall(SYS_nanosleep,q,0)); }
int usleep(useconds_t u){ struct timespec q={time_t(u/1000000),long(u%1000000)*1000}; return nanosleep(&q,0); }
int sem_wait(sem_t* s){ if(on()){ In in; point(true); for(;;){ int v; sem_getvalue(s,&v); if(v>0){ REAL(sem_wait); return r_(s); } block(B_SEM,s); } } REAL(sem_wait); return r_(s); }
int sem_post(sem_t* s) noexcept { REAL(sem_post); int e=r_(s); if(on()){ In in; wake(B_SEM,s); point(true); } return e; }
// function-local statics
int __cxa_guard_acquire(long long* g){ char* b=(char*)g; for(;;){ if(__atomic_load_n(b,__ATOMIC_ACQUIRE)) return 0; if(!on()){ if(b[1]) return 0; b[1]=1; return 1; } In in; int& o=(*g_guard)[g]; if(o==0){ o=me->id+1; return 1; } block(B_GUARD,g); } }
void __cxa_guard_release(long long* g){ char* b=(char*)g; b[1]=0; __atomic_store_n(b,1,__ATOMIC_RELEASE); if(on()){ In in; g_guard->erase(g); wake(B_GUARD,g); } }
void __cxa_guard_abort(long long* g){ char* b=(char*)g; b[1]=0; if(on()){ In in; g_guard->erase(g); wake(B_GUARD,g); } }
// instrumentation of memory accesses
#define MEM() do{ if(on()){ In in; point(false); } }while(0)
void __tsan_init(){} void __tsan_func_entry(void*){} void __tsan_func_exit(){}
#define RW(n) void __tsan_read##n(void*){MEM();} void __tsan_write##n(void*){MEM();} void __tsan_unaligned_read##n(void*){MEM();} void __tsan_unaligned_write##n(void*){MEM();} void __tsan_volatile_read##n(void*){MEM();} void __tsan_volatile_write##n(void*){MEM();}
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void*,size_t){MEM();} void __tsan_write_range(void*,size_t){MEM();} void __tsan_vptr_update(void*,void*){MEM();} void __tsan_vptr_read(void*){MEM();}
#define AT(b,T) T __tsan_atomic##b##_load(const volatile T* a,int){MEM(); return __atomic_load_n(a,5);} void __tsan_atomic##b##_store(volatile T* a,T v,int){MEM(); __atomic_store_n(a,v,5);} T __tsan_atomic##b##_exchange(volatile T* a,T v,int){MEM(); return __atomic_exchange_n(a,v,5);} \
 T __tsan_atomic##b##_fetch_add(volatile T* a,T v,int){MEM(); return __atomic_fetch_add(a,v,5);} T __tsan_atomic##b##_fetch_sub(volatile T* a,T v,int){MEM(); return __atomic_fetch_sub(a,v,5);} T __tsan_atomic##b##_fetch_and(volatile T* a,T v,int){MEM(); return __atomic_fetch_and(a,v,5);} T __tsan_atomic##b##_fetch_or(volatile T* a,T v,int){MEM(); return __atomic_fetch_or(a,v,5);} T __tsan_atomic##b##_fetch_xor(volatile T* a,T v,int){MEM(); return __atomic_fetch_xor(a,v,5);} \
 int __tsan_atomic##b##_compare_exchange_strong(volatile T* a,T* c,T v,int,int){MEM(); return __atomic_compare_exchange_n(a,c,v,false,5,5);} int __tsan_atomic##b##_compare_exchange_weak(volatile T* a,T* c,T v,int,int){MEM(); return __atomic_compare_exchange_n(a,c,v,false,5,5);} T __tsan_atomic##b##_compare_exchange_val(volatile T* a,T c,T v,int,int){MEM(); __atomic_compare_exchange_n(a,&c,v,false,5,5); return c;}
AT(8,uint8_t) AT(16,uint16_t) AT(32,uint32_t) AT(64,uint64_t)
void __tsan_atomic_thread_fence(int){ __atomic_thread_fence(5); } void __tsan_atomic_signal_fence(int){}
}
