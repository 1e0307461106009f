// Interposed synchronisation: pthreads, static-local guards, futures' futex, sleeping, threads.
#include "core.h"
#include <dlfcn.h>
#include <time.h>
#include <sched.h>
#include <unistd.h>
#include <atomic>
#include <bits/atomic_futex.h>
#include <thread>
using namespace sim;

template<class F> static F real(const char* n){ return (F)dlsym(RTLD_NEXT,n); }
#define REAL(ret,name,...) static ret (*r)(__VA_ARGS__) = real<ret(*)(__VA_ARGS__)>(name)
#define EXP extern "C" __attribute__((visibility("default")))

static inline int64_t ts_ns(const struct timespec* t){ return (int64_t)t->tv_sec*1000000000ll+t->tv_nsec; }
static int64_t to_mono(int64_t abs,int clk){ return clk==CLOCK_REALTIME ? mono()+(abs-realtime()) : abs; }

// ---- mutexes
static int lock_mutex(pthread_mutex_t* m, bool tr, int64_t until){
  In in; point(2,m); Sync* s=sync_of(m,1); int me=tl_self->id; int kind=m->__data.__kind&3;
  if(s->owner==me){ if(kind==PTHREAD_MUTEX_RECURSIVE){ s->count++; return 0; } if(tr) return EBUSY; if(kind==PTHREAD_MUTEX_ERRORCHECK) return EDEADLK; }
  while(s->owner>=0){
    if(tr) return EBUSY;
    block(W_MUTEX,m,until); 
    if(until>=0 && tl_self->timedout && s->owner>=0) return ETIMEDOUT;
  }
  s->owner=me; s->count=1; acquire(s->vc); return 0;
}
static void unlock_raw(pthread_mutex_t* m){
  Sync* s=sync_of(m,1);
  if(s->owner!=tl_self->id) fail("sync-misuse","a mutex is unlocked by a thread that does not hold it");
  if(--s->count>0) return;
  s->owner=-1; release(&s->vc); wake_all(W_MUTEX,m);
}
EXP int pthread_mutex_lock(pthread_mutex_t* m){ REAL(int,"pthread_mutex_lock",pthread_mutex_t*); if(!on()) return (g_active&&tl_self)?0:r(m); return lock_mutex(m,false,-1); }
EXP int pthread_mutex_trylock(pthread_mutex_t* m){ REAL(int,"pthread_mutex_trylock",pthread_mutex_t*); if(!on()) return (g_active&&tl_self)?0:r(m); return lock_mutex(m,true,-1); }
EXP int pthread_mutex_timedlock(pthread_mutex_t* m,const struct timespec* t){ REAL(int,"pthread_mutex_timedlock",pthread_mutex_t*,const struct timespec*); if(!on()) return r(m,t); return lock_mutex(m,false,to_mono(ts_ns(t),CLOCK_REALTIME)); }
EXP int pthread_mutex_clocklock(pthread_mutex_t* m,clockid_t c,const struct timespec* t){ REAL(int,"pthread_mutex_clocklock",pthread_mutex_t*,clockid_t,const struct timespec*); if(!on()) return r(m,c,t); return lock_mutex(m,false,to_mono(ts_ns(t),c)); }
EXP int pthread_mutex_unlock(pthread_mutex_t* m){ REAL(int,"pthread_mutex_unlock",pthread_mutex_t*); if(!on()) return (g_active&&tl_self)?0:r(m); { In in; unlock_raw(m); } point(2,m); return 0; }
EXP int pthread_mutex_destroy(pthread_mutex_t* m){ REAL(int,"pthread_mutex_destroy",pthread_mutex_t*); if(!on()) return r(m); In in; sync_of(m,1)->owner=-1; return 0; }

// ---- condition variables
static int cond_wait(pthread_cond_t* c,pthread_mutex_t* m,int64_t until){
  In in; point(2,c); Sync* s=sync_of(m,1); int cnt=s->count;
  if(s->owner!=tl_self->id) fail("sync-misuse","waiting on a condition variable without holding its mutex");
  s->count=1; unlock_raw(m); int rc=0;
  if(fault(F_SPURIOUS_WAKE)){ point(2,c); }
  else { block(W_COND,c,until); if(until>=0 && tl_self->timedout) rc=ETIMEDOUT; }
  acquire(sync_of(c,2)->vc);
  while(s->owner>=0) block(W_MUTEX,m,-1);
  s->owner=tl_self->id; s->count=cnt; acquire(s->vc); return rc;
}
EXP int pthread_cond_wait(pthread_cond_t* c,pthread_mutex_t* m){ REAL(int,"pthread_cond_wait",pthread_cond_t*,pthread_mutex_t*); if(!on()) return r(c,m); return cond_wait(c,m,-1); }
EXP int pthread_cond_timedwait(pthread_cond_t* c,pthread_mutex_t* m,const struct timespec* t){ REAL(int,"pthread_cond_timedwait",pthread_cond_t*,pthread_mutex_t*,const struct timespec*); if(!on()) return r(c,m,t); return cond_wait(c,m,to_mono(ts_ns(t),CLOCK_REALTIME)); }
EXP int pthread_cond_clockwait(pthread_cond_t* c,pthread_mutex_t* m,clockid_t k,const struct timespec* t){ REAL(int,"pthread_cond_clockwait",pthread_cond_t*,pthread_mutex_t*,clockid_t,const struct timespec*); if(!on()) return r(c,m,k,t); return cond_wait(c,m,to_mono(ts_ns(t),k)); }
EXP int pthread_cond_signal(pthread_cond_t* c){ REAL(int,"pthread_cond_signal",pthread_cond_t*); if(!on()) return r(c); In in; point(2,c); if(!wake_one(W_COND,c)) probe("notify_without_waiter"); return 0; }
EXP int pthread_cond_broadcast(pthread_cond_t* c){ REAL(int,"pthread_cond_broadcast",pthread_cond_t*); if(!on()) return r(c); In in; point(2,c); wake_all(W_COND,c); return 0; }
EXP int pthread_cond_destroy(pthread_cond_t* c){ REAL(int,"pthread_cond_destroy",pthread_cond_t*); if(!on()) return r(c); 
  In in; for(int i=0;i<nT;i++) if(T[i]->st==BLOCKED&&T[i]->wk==W_COND&&T[i]->wobj==c) fail("sync-misuse","a condition variable is destroyed while a thread waits on it"); return 0; }

// ---- reader/writer locks (shared_mutex)
static int rw_lock(pthread_rwlock_t* l,bool w,bool tr){ In in; point(2,l); Sync* s=sync_of(l,3);
  while(s->owner>=0 || (w&&s->readers>0)){ if(tr) return EBUSY; block(W_RW,l,-1); }
  if(w) s->owner=tl_self->id; else s->readers++; acquire(s->vc); return 0; }
EXP int pthread_rwlock_rdlock(pthread_rwlock_t* l){ REAL(int,"pthread_rwlock_rdlock",pthread_rwlock_t*); if(!on()) return r(l); return rw_lock(l,false,false); }
EXP int pthread_rwlock_wrlock(pthread_rwlock_t* l){ REAL(int,"pthread_rwlock_wrlock",pthread_rwlock_t*); if(!on()) return r(l); return rw_lock(l,true,false); }
EXP int pthread_rwlock_tryrdlock(pthread_rwlock_t* l){ REAL(int,"pthread_rwlock_tryrdlock",pthread_rwlock_t*); if(!on()) return r(l); return rw_lock(l,false,true); }
EXP int pthread_rwlock_trywrlock(pthread_rwlock_t* l){ REAL(int,"pthread_rwlock_trywrlock",pthread_rwlock_t*); if(!on()) return r(l); return rw_lock(l,true,true); }
EXP int pthread_rwlock_unlock(pthread_rwlock_t* l){ REAL(int,"pthread_rwlock_unlock",pthread_rwlock_t*); if(!on()) return r(l); { In in; Sync* s=sync_of(l,3); if(s->owner==tl_self->id) s->owner=-1; else s->readers--; release(&s->vc); wake_all(W_RW,l); } point(2,l); return 0; }

// ---- once / static guards
EXP int pthread_once(pthread_once_t* o,void(*f)(void)){
  REAL(int,"pthread_once",pthread_once_t*,void(*)(void)); if(!on()){ if(!(g_active&&tl_self)) return r(o,f); if(*(volatile int*)o!=2){ f(); *(volatile int*)o=2; } return 0; }
  Sync* s; { In in; point(2,o); s=sync_of(o,4);
    for(;;){ if(*(volatile int*)o==2){ acquire(s->vc); return 0; } if(s->owner<0) break; block(W_ONCE,o,-1); }
    s->owner=tl_self->id; }
  try { f(); } catch(...) { In in; s->owner=-1; wake_all(W_ONCE,o); throw; }
  { In in; *(volatile int*)o=2; s->owner=-1; release(&s->vc); wake_all(W_ONCE,o); } point(2,o); return 0;
}
EXP int __cxa_guard_acquire(long long* gg){ char* g=(char*)gg;
  REAL(int,"__cxa_guard_acquire",char*); if(!on()){ if(!(g_active&&tl_self)) return r(g); return *(volatile char*)g?0:1; }
  In in; point(2,g); Sync* s=sync_of(g,5);
  for(;;){ if(*(volatile char*)g){ acquire(s->vc); return 0; } if(s->owner<0) break; block(W_GUARD,g,-1); }
  s->owner=tl_self->id; return 1;
}
EXP void __cxa_guard_release(long long* gg){ char* g=(char*)gg; REAL(void,"__cxa_guard_release",char*); if(!on()){ if(!(g_active&&tl_self)) return r(g); *g=1; return; } { In in; Sync* s=sync_of(g,5); *(volatile char*)g=1; s->owner=-1; release(&s->vc); wake_all(W_GUARD,g);} point(2,g); }
EXP void __cxa_guard_abort(long long* gg){ char* g=(char*)gg; REAL(void,"__cxa_guard_abort",char*); if(!on()){ if(!(g_active&&tl_self)) return r(g); return; } In in; Sync* s=sync_of(g,5); s->owner=-1; wake_all(W_GUARD,g); }

// ---- futures
static bool futex_wait(unsigned* a,unsigned v,bool to,int64_t until){ In in; point(2,a); if(__atomic_load_n(a,__ATOMIC_SEQ_CST)!=v) return true;
  block(W_FUTEX,a,to?until:-1); return !(to&&tl_self->timedout); }
namespace std {
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* a,unsigned v,bool to,chrono::seconds s,chrono::nanoseconds ns){
  using F=bool(*)(void*,unsigned*,unsigned,bool,chrono::seconds,chrono::nanoseconds);
  static F r=(F)dlsym(RTLD_NEXT,"_ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE");
  if(!on()) return r(this,a,v,to,s,ns);
  return futex_wait(a,v,to,to_mono(s.count()*1000000000ll+ns.count(),CLOCK_REALTIME)); }
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* a,unsigned v,bool to,chrono::seconds s,chrono::nanoseconds ns){
  using F=bool(*)(void*,unsigned*,unsigned,bool,chrono::seconds,chrono::nanoseconds);
  static F r=(F)dlsym(RTLD_NEXT,"_ZNSt28__atomic_futex_unsigned_base26_M_futex_wait_until_steadyEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE");
  if(!on()) return r(this,a,v,to,s,ns);
  return futex_wait(a,v,to,s.count()*1000000000ll+ns.count()); }
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* a){
  using F=void(*)(unsigned*); static F r=(F)dlsym(RTLD_NEXT,"_ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj");
  if(!on()) return r(a); In in; point(2,a); wake_all(W_FUTEX,a); }
unsigned thread::hardware_concurrency() noexcept { using F=unsigned(*)(); static F r=(F)dlsym(RTLD_NEXT,"_ZNSt6thread20hardware_concurrencyEv"); return g_active?cores_now():r(); }
}

// ---- threads
static Th* by_pt(pthread_t p){ for(int i=nT-1;i>=0;i--) if(pthread_equal(T[i]->pt,p)) return T[i]; return nullptr; }
EXP int pthread_create(pthread_t* out,const pthread_attr_t* at,void*(*f)(void*),void* arg){
  REAL(int,"pthread_create",pthread_t*,const pthread_attr_t*,void*(*)(void*),void*); if(!on()) return r(out,at,f,arg);
  In in; point(2,out); if(fault(F_THREAD_CREATE)) return EAGAIN;
  Th* t=new_thread(f,arg,false); if(!t) return EAGAIN; *out=t->pt;
  int ds=0; if(at) pthread_attr_getdetachstate(at,&ds); t->detached=(ds==PTHREAD_CREATE_DETACHED);
  point(2,t); return 0;
}
EXP int pthread_join(pthread_t p,void** ret){
  REAL(int,"pthread_join",pthread_t,void**); if(!on()) return r(p,ret);
  In in; point(2,nullptr); Th* t=by_pt(p); if(!t||t->joined||t->detached) return t?EINVAL:ESRCH; if(t==tl_self) return EDEADLK;
  t->joined=true; while(t->st!=DONE) block(W_JOIN,t,-1);
  acquire(sync_of(t,9)->vc); if(ret) *ret=t->ret; return 0;
}
EXP int pthread_detach(pthread_t p){ REAL(int,"pthread_detach",pthread_t); if(!on()) return r(p); In in; Th* t=by_pt(p); if(!t) return ESRCH; t->detached=true; return 0; }
EXP int sched_yield(){ REAL(int,"sched_yield",void); if(!on()) return r(); point_yield(); return 0; }
EXP int nanosleep(const struct timespec* t,struct timespec* rem){ REAL(int,"nanosleep",const struct timespec*,struct timespec*); if(!on()) return r(t,rem); (void)rem; sim::sleep_ns(ts_ns(t)); return 0; }
EXP int clock_nanosleep(clockid_t c,int fl,const struct timespec* t,struct timespec* rem){ REAL(int,"clock_nanosleep",clockid_t,int,const struct timespec*,struct timespec*); if(!on()) return r(c,fl,t,rem); sim::sleep_ns(fl&TIMER_ABSTIME?to_mono(ts_ns(t),c)-mono():ts_ns(t)); return 0; }
EXP int usleep(useconds_t u){ REAL(int,"usleep",useconds_t); if(!on()) return r(u); sim::sleep_ns((int64_t)u*1000); return 0; }
EXP unsigned sleep(unsigned s){ REAL(unsigned,"sleep",unsigned); if(!on()) return r(s); sim::sleep_ns((int64_t)s*1000000000ll); return 0; }

// ---- clocks
namespace sim { int64_t* rt_offset(); }
EXP int clock_gettime(clockid_t c,struct timespec* t){
  REAL(int,"clock_gettime",clockid_t,struct timespec*); if(!g_active||!tl_self) return r(c,t);
  if(!tl_in){ if(fault(F_CLOCK_JUMP)) *rt_offset()+=3600ll*1000000000; if(fault(F_CLOCK_BACK)) *rt_offset()-=1800ll*1000000000; add_clock(700); }
  bool rt=c==CLOCK_REALTIME||c==CLOCK_REALTIME_COARSE; int64_t v=rt?realtime():mono(); t->tv_sec=v/1000000000ll; t->tv_nsec=v%1000000000ll; return 0;
}
EXP time_t time(time_t* o){ time_t v; if(!g_active||!tl_self){ struct timespec t; clock_gettime(CLOCK_REALTIME,&t); v=t.tv_sec; } else v=realtime()/1000000000ll; if(o) *o=v; return v; }
#include <sys/time.h>
EXP int gettimeofday(struct timeval* tv,void*){ struct timespec t; clock_gettime(CLOCK_REALTIME,&t); tv->tv_sec=t.tv_sec; tv->tv_usec=t.tv_nsec/1000; return 0; }
EXP clock_t clock(void){ struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec*1000000ll+t.tv_nsec/1000; }
EXP int get_nprocs(){ REAL(int,"get_nprocs",void); return g_active?cores_now():r(); }
EXP unsigned arc4random(){ REAL(unsigned,"arc4random",void); if(!g_active) return r(); static uint64_t n; return (unsigned)hash64(hash64(P->seed,0xA4C),n++); }
EXP int getentropy(void* b,size_t n){ REAL(int,"getentropy",void*,size_t); if(!g_active) return r(b,n); static uint64_t k; for(size_t i=0;i<n;i++) ((char*)b)[i]=(char)hash64(hash64(P->seed,0xE17),k++); return 0; }
EXP pid_t getpid(){ REAL(pid_t,"getpid",void); if(!g_active) return r(); return 4000+(int)R->incs; }
EXP int rand(){ REAL(int,"rand",void); if(!g_active) return r(); static uint64_t k; return (int)(hash64(hash64(P->seed,0x12A),k++)&0x7fffffff); }
EXP long random(){ REAL(long,"random",void); if(!g_active) return r(); static uint64_t k; return (long)(hash64(hash64(P->seed,0x12B),k++)&0x7fffffff); }
EXP void srand(unsigned){ }
EXP void srandom(unsigned){ }
EXP int rand_r(unsigned* s){ REAL(int,"rand_r",unsigned*); return r(s); }

// ---- heap
extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t,size_t); void* __libc_realloc(void*,size_t); void* __libc_memalign(size_t,size_t); }
static inline bool heap_on(){ return g_active && tl_self && !g_child; }
static inline bool oom(){ return !tl_in && tl_self->alloc_scope && fault(F_BAD_ALLOC); }
EXP void* malloc(size_t n){ if(!heap_on()) return __libc_malloc(n); if(oom()){ errno=ENOMEM; return nullptr; } return region_malloc(n,16,1); }
EXP void* calloc(size_t a,size_t b){ if(!heap_on()) return __libc_calloc(a,b); size_t n; if(__builtin_mul_overflow(a,b,&n)){ errno=ENOMEM; return nullptr; } return region_malloc(n,16,0); }
EXP void free(void* p){ if(!p) return; if(!in_region(p)){ __libc_free(p); return; }
  if(heap_on()){ tl_in++; mem_range_free((uintptr_t)p,region_size(p)); tl_in--; } }
EXP void* realloc(void* p,size_t n){ if(!heap_on()&&!in_region(p)) return __libc_realloc(p,n);
  void* q=malloc(n); if(!q) return nullptr; if(p){ size_t o; if(in_region(p)) o=region_size(p); else o=0;
    if(!in_region(p)){ static size_t (*mu)(void*)=(size_t(*)(void*))dlsym(RTLD_DEFAULT,"malloc_usable_size"); o=mu(p); }
    memcpy(q,p,o<n?o:n); free(p); } return q; }
EXP void* memalign(size_t al,size_t n){ if(!heap_on()) return __libc_memalign(al,n); return region_malloc(n,al,1); }
EXP void* aligned_alloc(size_t al,size_t n){ return memalign(al,n); }
EXP int posix_memalign(void** o,size_t al,size_t n){ void* p=memalign(al,n); if(!p) return ENOMEM; *o=p; return 0; }
EXP size_t malloc_usable_size(void* p){ REAL(size_t,"malloc_usable_size",void*); if(p&&in_region(p)) return region_size(p); return r(p); }
