#include <ucontext.h>
// AmpSim scheduler: real threads parked and released one at a time; a seeded policy (or an explicit
// decision list) decides every switch.  Also: clocks, faults, race/lifetime detector, heap.
#include "core.h"
#include <iostream>
#include <dlfcn.h>
#include <stdarg.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <signal.h>
#include <unistd.h>
#include <cxxabi.h>
#include <exception>
#include <typeinfo>
#include <fcntl.h>

extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t,size_t);
             void* __libc_realloc(void*,size_t); void* __libc_memalign(size_t,size_t); }

namespace sim {
Rec* R; const Plan* P;
Th* T[MAXT+2]; int nT; static Th* cur;
bool g_active, g_child; __thread Th* tl_self; __thread int tl_in;
uint64_t g_steps_cap = 400000; std::string g_disk, g_memo; bool g_verbose;

static const char* FN[F_NKINDS] = {
  "thread_create_eagain","spurious_wakeup","bad_alloc",
  "open_fail","read_eio","short_read","read_eintr","write_enospc","write_eio","short_write","write_eintr",
  "close_err","rename_err","mkstemp_err","fork_fail","exec_fail","wait_eintr",
  "compiler_exit_nonzero","compiler_killed","compiler_torn_output","compiler_slow","compiler_leftover_output","dlopen_fail",
  "process_crash","orphan_compiler_survives","clock_jump_forward","clock_jump_back","thread_stall","torn_file","env","link_temp" };
const char* fault_name(int k){ return FN[k]; }

// ------------------------------------------------------------------ random numbers
uint64_t hash64(uint64_t a, uint64_t b){
  uint64_t z = a + 0x9E3779B97F4A7C15ull*(b+1);
  z = (z ^ (z>>30))*0xBF58476D1CE4E5B9ull; z = (z ^ (z>>27))*0x94D049BB133111EBull; return z ^ (z>>31);
}
static uint64_t hname(const char* s){ uint64_t h=1469598103934665603ull; for(;*s;s++) h=(h^(unsigned char)*s)*1099511628211ull; return h; }
static uint64_t s_rng; static uint64_t srnd(){ s_rng += 0x9E3779B97F4A7C15ull; return hash64(s_rng, 7); }

long param(const char* name, long lo, long hi){
  In in;
  for(uint32_t i=0;i<R->nparam;i++) if(!strcmp(R->params[i].name,name)) return R->params[i].v;
  long v = 0; bool forced=false;
  for(auto& p : P->params) if(p.first==name){ v=p.second; forced=true; }
  if(forced){ if(v<lo) v=lo; if(v>hi) v=hi; }
  else v = lo + (long)(hash64(hash64(P->seed, 0x77), hname(name)) % (uint64_t)(hi-lo+1));
  hlog(hash64(hname(name),(uint64_t)v));
  if(R->nparam < MAX_PARAM){ auto& q=R->params[R->nparam++]; snprintf(q.name,56,"%s",name); q.v=v; q.lo=lo; q.hi=hi; }
  return v;
}
bool flip(const char* name,int num,int den){ return param(name,0,den-1) < num; }
double unit(const char* name){ return param(name,0,1000000)/1e6; }
void step_limit(unsigned long long n){ g_steps_cap=n; }
void* shared(size_t n){ n=(n+63)&~size_t(63); if(R->shlen+n>sizeof R->sh){ fprintf(stderr,"shared exhausted\n"); abort(); } void* p=R->sh+R->shlen; R->shlen+=n; return p; }
std::string disk(){ return g_disk; }

// ------------------------------------------------------------------ log
void hlog(uint64_t v){ R->log_hash = hash64(R->log_hash, v); }
static void logline(const char* s){
  for(const char* c=s;*c;c++) R->log_hash = (R->log_hash ^ (unsigned char)*c)*1099511628211ull;
  size_t n=strlen(s); if(R->loglen+n+2 < LOG_CAP){ memcpy(R->log+R->loglen,s,n); R->loglen+=n; R->log[R->loglen++]='\n'; } else R->logtrunc++;
}
void note(const char* fmt,...){ In in; char b[600]; int k=snprintf(b,sizeof b,"[%llu t%d] ",(unsigned long long)R->step, tl_self?tl_self->id:-1);
  va_list ap; va_start(ap,fmt); vsnprintf(b+k,sizeof b-k,fmt,ap); va_end(ap); logline(b); }
void probe(const char* name){ In in; for(uint32_t i=0;i<R->nprobe;i++) if(!strcmp(R->probes[i].name,name)){ R->probes[i].n++; return; }
  if(R->nprobe<160){ snprintf(R->probes[R->nprobe].name,56,"%s",name); R->probes[R->nprobe++].n=1; } }
void die(int s){ syscall(SYS_exit_group,s); __builtin_unreachable(); }
void fail(const char* cls,const char* fmt,...){
  tl_in++; 
  if(R->status==0 || R->status==1){ snprintf(R->cls,sizeof R->cls,"%s",cls); va_list ap; va_start(ap,fmt); vsnprintf(R->msg,sizeof R->msg,fmt,ap); va_end(ap); R->status=strcmp(cls,"machinery")?2:3; }
  char b[300]; snprintf(b,sizeof b,"VIOLATED %s",R->cls); logline(b);
  die(2);
}

// ------------------------------------------------------------------ faults
struct FK { int num, den, maxf; }; static FK fk[F_NKINDS]; static int f_stopped;
void enable(FaultKind k,int num,int den){ fk[k].num=num; fk[k].den=den; if(!fk[k].maxf) fk[k].maxf=1<<30; }
void set_max_fires(FaultKind k,int n){ fk[k].maxf=n; }
void faults_stop(){ f_stopped++; } void faults_resume(){ f_stopped--; }
bool fault(FaultKind k){
  if(!g_active || f_stopped>0) return false;
  if(!P->replay && !fk[k].num) return false;
  In in;
  uint32_t o = R->occ[k]++; bool f=false;
  if(P->replay){ for(auto& x : P->faults) if(x.first==k && x.second==o){ f=true; break; } }
  else f = (int)R->fired[k] < fk[k].maxf && (int)(hash64(hash64(P->seed,0xFA0+k),o)%fk[k].den) < fk[k].num;
  if(f){ R->fired[k]++; if(R->nfault<MAX_FAULT){ R->faults[R->nfault].kind=k; R->faults[R->nfault++].occ=o; } note("fault %s #%u",FN[k],o); }
  return f;
}

// ------------------------------------------------------------------ clock
static int64_t mono_ns, rt_off; 
int64_t mono(){ return mono_ns; } int64_t realtime(){ return mono_ns+rt_off; } int64_t now_ns(){ return mono_ns; }
void add_clock(int64_t ns){ if(ns>0){ mono_ns+=ns; R->simtime+=ns; } }
int64_t* rt_offset(){ return &rt_off; }

// ------------------------------------------------------------------ scheduling policy
static int pol, pol_den; static uint64_t chg[8]; static int nchg; static int prio_low; static size_t rp_i;
static bool mem_points=true, races=true; static int ncores=4; static int ntimed;
int live_threads(){ int n=0; for(int i=0;i<nT;i++) if(T[i]->st!=DONE&&!T[i]->is_proc) n++; return n; } static uint32_t mem_div=1; static bool track=true; void mem_every(int n){ mem_div=n; } void track_memory(bool b){ track=b; } void preempt_memory(bool b){ mem_points=b; } void detect_races(bool b){ races=b; } void cores(int n){ ncores=n; } int cores_now(){ return ncores; }
int self(){ return tl_self?tl_self->id:-1; } uint64_t step(){ return R->step; }
void alloc_scope(bool b){ if(tl_self) tl_self->alloc_scope = b; }

static void setup_policy(){
  uint64_t h=hash64(P->seed,0x5C4ED); s_rng=hash64(h,R->incs); rp_i=0;
  while(rp_i<P->sched.size() && P->sched[rp_i].first<=R->step) rp_i++;
  int k=h%10;
  if(k<5){ pol=0; static const int d[]={2,3,4,8,20,60,200}; pol_den=d[(h>>8)%7]; }
  else { pol=1; nchg=1+(h>>8)%5; static const uint64_t hz[]={30,120,500,2500}; uint64_t H=hz[(h>>16)%4]; for(int i=0;i<nchg;i++) chg[i]=R->step+1+srnd()%H; prio_low=-1; }
}
static void record(int tid){ if(R->nsched<MAX_SCHED){ R->sched[R->nsched].step=R->step; R->sched[R->nsched++].tid=tid; } }
static int runnable(int* out){ int n=0; for(int i=0;i<nT;i++) if(T[i]->st==RUNNABLE) out[n++]=i; return n; }
static int best_prio(const int* r,int n){ int b=r[0]; for(int i=1;i<n;i++) if(T[r[i]]->prio>T[b]->prio) b=r[i]; return b; }

static void switch_to(int tid, bool wait){
  Th* me=tl_self; Th* nx=T[tid];
  R->switches++; R->sched_hash=hash64(R->sched_hash, (uint64_t)tid*131 + (me?me->id:999));
  R->state_hash = hash64(R->state_hash, ((uint64_t)nx->wk<<8) + tid);
  cur=nx; sem_post(&nx->sem);
  if(wait){ while(sem_wait(&me->sem)!=0){} }
}
static void check_timers(){
  if(!ntimed) return;
  for(int i=0;i<nT;i++) if(T[i]->st==BLOCKED && T[i]->timed && T[i]->wake_at<=mono_ns){ T[i]->timedout=true; T[i]->st=RUNNABLE; T[i]->timed=false; ntimed--; R->ntimers++; }
}
static int replay_choice(){ // decision recorded for this step?
  while(rp_i<P->sched.size() && P->sched[rp_i].first<R->step) rp_i++;
  if(rp_i<P->sched.size() && P->sched[rp_i].first==R->step) return P->sched[rp_i].second;
  return -1;
}
static void tick(){
  R->step++; mono_ns+=120; R->simtime+=120;
  if(R->step>g_steps_cap) fail("no-progress","the run did not finish within %llu scheduling points",(unsigned long long)g_steps_cap);
  check_timers();
}
static __thread bool yielding;
void point(int kind,const void* obj){
  Th* me=tl_self; if(!g_active||!me||g_child) return; In in;
  (void)obj; (void)kind; tick();
  if(kind>=2 && fault(F_STALL)){ int64_t d=1000000ll*(1+hash64(P->seed,R->step)%5000); mono_ns+=d; R->simtime+=d; check_timers(); }
  int target=me->id; static int run_len, run_tid;
  if(run_tid==me->id) run_len++; else { run_tid=me->id; run_len=0; }
  if(P->replay){ int c=replay_choice(); if(c>=0 && c<nT && T[c]->st==RUNNABLE) target=c; }
  else if(yielding && pol==1){ me->prio=prio_low--; int r[MAXT+2],n=runnable(r); if(n>1) target=best_prio(r,n); }
  else {
    int r[MAXT+2], n;
    if(pol==0){ if(srnd()%pol_den==0){ n=runnable(r); target=r[srnd()%n]; } }
    else {
      for(int i=0;i<nchg;i++) if(chg[i]==R->step) me->prio = prio_low--;
      n=runnable(r); if(n>1) target=best_prio(r,n);
    }
  }
  if(target==me->id && run_len>=(yielding?50:3000)){ // fairness: nobody spins for ever while others could run
    run_len=0; if(pol==1) me->prio=prio_low--; for(int k=1;k<nT;k++){ int c=(me->id+k)%nT; if(T[c]->st==RUNNABLE){ target=c; break; } } }
  if(target!=me->id){ record(target); switch_to(target,true); }
}
void point_yield(){ yielding=true; point(2,nullptr); yielding=false; }
static const char* WN[]={"nothing","mutex","condition variable","join","once","static init","future/futex","sleep","child process","barrier","rwlock","semaphore","team"};
static void deadlock(){
  char b[900]; int k=0; b[0]=0;
  for(int i=0;i<nT && k<800;i++) if(T[i]->st==BLOCKED) k+=snprintf(b+k,sizeof b-k," t%d waits for %s;",i,WN[T[i]->wk]);
  fail("deadlock","no thread can run:%s",b);
}
static void pick_after_block(bool wait){
  Th* me=tl_self; int r[MAXT+2]; int n;
  tick();
  for(;;){
    n=runnable(r); if(n) break;
    int64_t best=INT64_MAX; for(int i=0;i<nT;i++) if(T[i]->st==BLOCKED&&T[i]->timed&&T[i]->wake_at<best) best=T[i]->wake_at;
    if(best==INT64_MAX) deadlock();
    if(best>mono_ns){ R->simtime+=best-mono_ns; mono_ns=best; }
    check_timers();
  }
  int def=r[0], target=def;
  if(P->replay){ int c=replay_choice(); if(c>=0&&c<nT&&T[c]->st==RUNNABLE) target=c; }
  else target = pol==0 ? r[srnd()%n] : best_prio(r,n);
  if(target!=def) record(target);
  if(wait && target==me->id) return;
  switch_to(target,wait);
}
void block(Wait k,const void* obj,int64_t wake_at){
  Th* me=tl_self; me->st=BLOCKED; me->wk=k; me->wobj=obj; me->timedout=false;
  me->timed=wake_at>=0; me->wake_at=wake_at; if(me->timed) ntimed++;
  pick_after_block(true);
  me->wk=W_NONE; me->wobj=nullptr;
}
static void make_runnable(Th* t){ if(t->timed){ t->timed=false; ntimed--; } t->st=RUNNABLE; }
void wake_all(Wait k,const void* obj){ for(int i=0;i<nT;i++) if(T[i]->st==BLOCKED&&T[i]->wk==k&&T[i]->wobj==obj) make_runnable(T[i]); }
bool wake_one(Wait k,const void* obj){
  int w[MAXT+2],n=0; for(int i=0;i<nT;i++) if(T[i]->st==BLOCKED&&T[i]->wk==k&&T[i]->wobj==obj) w[n++]=i;
  if(!n) return false; 
  int t=w[0];
  if(n>1){ tick(); if(P->replay){ int c=replay_choice(); for(int i=0;i<n;i++) if(w[i]==c) t=c; } else { t=w[srnd()%n]; if(t!=w[0]) record(t); } }
  make_runnable(T[t]); return true;
}
void yield(){ if(tl_self){ point(2,nullptr); } }
void sleep_ns(int64_t ns){ if(!tl_self) return; In in; if(ns<=0){ point(2,nullptr); return; } block(W_SLEEP,nullptr,mono_ns+ns); }

// ------------------------------------------------------------------ regions (heap, stacks, shadow)
static char* const HEAP=(char*)0x500000000000ull; static const size_t HEAP_SZ=24ull<<30;
static char* const STK=(char*)0x510000000000ull;  static const size_t STK_ONE=2u<<20;
static char* hp; static unsigned char fillbyte=0xA5;
static void map_regions(){
  if(mmap(HEAP,HEAP_SZ,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0)!=HEAP ||
     mmap(STK,STK_ONE*(MAXT+2),PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0)!=STK){ perror("mmap regions"); die(3); }
  madvise(HEAP,HEAP_SZ,MADV_NOHUGEPAGE); madvise(STK,STK_ONE*(MAXT+2),MADV_NOHUGEPAGE);
  hp=HEAP+64;
}
bool in_region(const void* p){ return (char*)p>=HEAP && (char*)p<HEAP+HEAP_SZ; }
size_t region_size(const void* p){ return ((size_t*)p)[-1]; }
void mem_range_zone(uintptr_t a,uintptr_t e);
void* region_malloc(size_t n,size_t al,int fill){
  if(al<16) al=16;
  uintptr_t a=((uintptr_t)hp+16+al-1)&~(uintptr_t)(al-1);
  if(a+n+64>(uintptr_t)HEAP+HEAP_SZ){ return nullptr; }
  ((size_t*)a)[-1]=n; hp=(char*)(a+n+32); // at least 24 bytes nobody may touch
  if(fill) mem_range_zone((a+n+7)&~(uintptr_t)7,(uintptr_t)hp);
  if(fill && n) memset((void*)a,fillbyte,n<(1u<<16)?n:(1u<<16));
  return (void*)a;
}

// shadow memory: 4 slots per 8-byte granule
struct Cell { uint64_t s[4]; };
struct SPage { Cell c[512]; };
static const uint64_t FREED=~0ull, BEYOND=~0ull-1;   // freed memory, memory behind an allocation
static const uint32_t HT=1u<<17; static struct { uintptr_t pg; SPage* sp; } *ht; static uint32_t ht_n;
static char* sp_cur; static char* sp_end; static uintptr_t c_pg; static SPage* c_sp;
static SPage* spage(uintptr_t pg){
  if(pg==c_pg) return c_sp;
  uint32_t h=(uint32_t)(hash64(pg,3)&(HT-1));
  while(ht[h].pg && ht[h].pg!=pg) h=(h+1)&(HT-1);
  if(!ht[h].pg){
    if(++ht_n>HT*3/4) return nullptr;
    if(sp_cur+sizeof(SPage)>sp_end){ sp_cur=(char*)mmap(nullptr,64u<<20,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); sp_end=sp_cur+(64u<<20); }
    ht[h].pg=pg; ht[h].sp=(SPage*)sp_cur; sp_cur+=sizeof(SPage);
  }
  c_pg=pg; c_sp=ht[h].sp; return c_sp;
}
static void init_shadow(){
  ht=(decltype(ht))mmap(nullptr,sizeof(*ht)*HT,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); ht_n=0; c_pg=0; sp_cur=sp_end=nullptr;
}
void mem_range_free(uintptr_t a,size_t n){
  if(n>(1u<<20)) n=1u<<20;
  uintptr_t e=a+n; for(uintptr_t g=a>>3; (g<<3)<e; g++){ SPage* sp=spage(g>>9); if(!sp) return; sp->c[g&511].s[0]=FREED; }
}
void mem_range_zone(uintptr_t a,uintptr_t e){ for(uintptr_t g=a>>3;((g+1)<<3)<=e;g++){ SPage* sp=spage(g>>9); if(!sp) return; sp->c[g&511].s[0]=BEYOND; } }
static void mem_range_clear(uintptr_t a,size_t n){
  for(uintptr_t p=a>>12;(p<<12)<a+n;p++){ uint32_t h=(uint32_t)(hash64(p,3)&(HT-1)); while(ht[h].pg&&ht[h].pg!=p) h=(h+1)&(HT-1); if(ht[h].pg) memset(ht[h].sp,0,sizeof(SPage)); }
}
static void symname(void* pc,char* out,size_t n){
  Dl_info di; out[0]=0; if(dladdr((char*)pc-1,&di)&&di.dli_sname){ int st=0; char* d=abi::__cxa_demangle(di.dli_sname,nullptr,nullptr,&st); 
    const char* s=d?d:di.dli_sname; snprintf(out,n,"%.150s",s); } else snprintf(out,n,"?");
}
static inline uint64_t mk(uint32_t clk,int tid,unsigned mask,bool w,bool at){ return (uint64_t)clk | (uint64_t)tid<<32 | (uint64_t)mask<<40 | (uint64_t)w<<48 | (uint64_t)at<<49 | 1ull<<50; }

static bool check_cell(Cell* c,unsigned mask,bool w,bool at,Th* me,void* pc,bool* shared_out){
  if(UNLIKELY(c->s[0]==BEYOND)){ char f[200]; symname(pc,f,sizeof f); fail("out-of-bounds","%s behind the end of an allocation in %s",w?"write":"read",f); }
  if(UNLIKELY(c->s[0]==FREED)){ char f[200]; symname(pc,f,sizeof f); fail("use-after-free","%s of freed memory in %s",w?"write":"read",f); }
  if(!races) { for(int i=0;i<4;i++) if(c->s[i] && (int)((c->s[i]>>32)&0xff)!=me->id) *shared_out=true; }
  uint32_t clk=me->vc.c[me->id]; uint64_t mine=mk(clk,me->id,mask,w,at); int place=-1,hbslot=-1;
  for(int i=0;i<4;i++){
    uint64_t s=c->s[i]; if(!s){ if(place<0) place=i; continue; }
    int tid=(s>>32)&0xff; unsigned m=(s>>40)&0xff; bool sw=(s>>48)&1, sa=(s>>49)&1;
    if(tid==me->id){ if(m==mask && (w||!sw) && (!sa||at||1)){ if(sw==w||w) place=i; } continue; }
    *shared_out=true;
    bool hb=(uint32_t)s<=me->vc.c[tid];
    if(hb){ if(hbslot<0 && (m&~mask)==0 && (w||!sw)) hbslot=i; continue; }
    if(races && (m&mask) && (w||sw) && !(sa&&at)){
      char f[200]; symname(pc,f,sizeof f);
      fail("data-race","%s by t%d in %s is not ordered with an earlier %s by t%d",w?"write":"read",me->id,f,sw?"write":"read",tid);
    }
  }
  if(place<0) place=hbslot>=0?hbslot:(int)(clk&3);
  c->s[place]=mine; return true;
}
// the formatting flags of the console streams: messages of threads may mix, nothing claimed depends on them
static inline bool console(uintptr_t a){ return a-(uintptr_t)&std::cout<sizeof(std::cout) || a-(uintptr_t)&std::cerr<sizeof(std::cerr) || a-(uintptr_t)&std::clog<sizeof(std::clog); }
void mem_access(uintptr_t a,unsigned size,bool w,bool at,void* pc){
  if(UNLIKELY(!track||console(a))) return;
  Th* me=tl_self; tl_in++;
  R->mem++;
  bool sh=false; unsigned done=0;
  while(done<size){ uintptr_t x=a+done; unsigned off=x&7, n=8-off; if(n>size-done) n=size-done;
    SPage* sp=spage(x>>12); if(!sp) break; check_cell(&sp->c[(x>>3)&511],((1u<<n)-1)<<off,w,at,me,pc,&sh); done+=n; }
  tl_in--;
  if(mem_points && !at && (sh ? R->mem%mem_div==0 : (R->mem&127)==0)) point(1,(void*)a);
}

// ------------------------------------------------------------------ sync objects
static const uint32_t SH=1u<<20; static Sync** st; static int nsync;
Sync* sync_of(const void* addr,int kind){
  uintptr_t k=(uintptr_t)addr; uint32_t h=(uint32_t)(hash64(k,5)&(SH-1));
  while(st[h] && st[h]->key!=k) h=(h+1)&(SH-1);
  if(!st[h]){ Sync* s=(Sync*)__libc_calloc(1,sizeof(Sync)); s->key=k; s->owner=-1; s->tid=-1; s->kind=kind; s->id=nsync++; st[h]=s; if(nsync>(int)SH-100){ fail("machinery","too many sync objects"); } }
  return st[h];
}
void acquire(VC* v){ if(!v) return; VC& m=tl_self->vc; for(int i=0;i<nT;i++) if(v->c[i]>m.c[i]) m.c[i]=v->c[i]; }
void release(VC** v){ if(!*v) *v=(VC*)__libc_calloc(1,sizeof(VC)); VC& m=tl_self->vc; for(int i=0;i<nT;i++) if(m.c[i]>(*v)->c[i]) (*v)->c[i]=m.c[i]; m.c[tl_self->id]++; }

// ------------------------------------------------------------------ threads
static int (*real_create)(pthread_t*,const pthread_attr_t*,void*(*)(void*),void*);
static void* tramp(void* p){
  Th* t=(Th*)p; tl_self=t; tl_in=1; while(sem_wait(&t->sem)!=0){}
  tl_in=0; t->ret=t->fn(t->arg); tl_in=1;
  t->st=DONE; release(&((Sync*)sync_of(t,9))->vc); wake_all(W_JOIN,t); wake_all(W_PROC,t);
  mem_range_clear((uintptr_t)t->stk,STK_ONE);
  pick_after_block(false); tl_self=nullptr; return nullptr;
}
static Th* mk_th(){ Th* t=(Th*)__libc_calloc(1,sizeof(Th)); t->id=nT; sem_init(&t->sem,0,0); T[nT++]=t; R->nthreads_total++; if((uint32_t)nT>R->nthreads_max) R->nthreads_max=nT; t->prio=(int)(hash64(hash64(P->seed,0x9919),t->id)%100000)+1; return t; }
Th* new_thread(void*(*fn)(void*),void* arg,bool is_proc){
  if(nT>=MAXT) return nullptr;
  Th* t=mk_th(); t->fn=fn; t->arg=arg; t->is_proc=is_proc; t->st=RUNNABLE;
  t->vc=tl_self->vc; t->vc.c[t->id]=1; tl_self->vc.c[tl_self->id]++;
  t->stk=STK+(size_t)t->id*STK_ONE; t->stksz=STK_ONE;
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at,t->stk,STK_ONE); pthread_attr_setdetachstate(&at,PTHREAD_CREATE_DETACHED);
  int rc=real_create(&t->pt,&at,tramp,t); pthread_attr_destroy(&at);
  if(rc){ snprintf(R->msg,sizeof R->msg,"real pthread_create failed %d",rc); R->status=3; die(3); }
  return t;
}

static void on_terminate(){
  tl_in++; const char* what="no exception"; char buf[400];
  if(auto e=std::current_exception()){ try{ std::rethrow_exception(e); } catch(std::exception& x){ snprintf(buf,sizeof buf,"%s: %s",typeid(x).name(),x.what()); what=buf; } catch(...){ what="unknown exception"; } }
  fail("terminate","std::terminate called (%s)",what);
}
static void on_signal(int s,siginfo_t* si,void* uc){
  tl_in++; (void)si; char f[200]="?"; symname((void*)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP],f,sizeof f); fail("crash-signal","the process died with signal %d (%s) in %s",s,strsignal(s),f);
}

Inc incarnation(const std::function<void()>& fn){
  fflush(nullptr);
  R->crashed=0;
  static pid_t (*real_fork)()=(pid_t(*)())dlsym(RTLD_NEXT,"fork");
  R->finished=0; pid_t p=real_fork();
  if(p==0){
    struct rlimit rl={25,30}; setrlimit(RLIMIT_CPU,&rl); rl={0,0}; setrlimit(RLIMIT_CORE,&rl);
    // identical address space whatever happened before: our own regions
    map_regions(); init_shadow(); st=(Sync**)__libc_calloc(SH,sizeof(Sync*)); nsync=0; nT=0; ntimed=0; f_stopped=0;
    R->incs++; fillbyte = (unsigned char)(hash64(P->seed,0xF111)%2 ? 0xA5 : 0x00);
    mono_ns = 5000000000ll + (int64_t)R->simtime; rt_off = 1700000000000000000ll;
    if(!real_create) real_create=(decltype(real_create))dlsym(RTLD_NEXT,"pthread_create");
    std::set_terminate(on_terminate);
    static char* alt=(char*)mmap(nullptr,1<<17,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0);
    stack_t ss={}; ss.ss_sp=alt; ss.ss_size=1<<17; sigaltstack(&ss,nullptr);
    struct sigaction sa={}; sa.sa_sigaction=on_signal; sa.sa_flags=SA_SIGINFO|SA_ONSTACK; 
    for(int s : {SIGSEGV,SIGBUS,SIGFPE,SIGILL,SIGABRT,SIGXCPU}) sigaction(s,&sa,nullptr);
    Th* t=mk_th(); t->st=RUNNABLE; t->vc.c[0]=1; t->pt=pthread_self(); tl_self=t; cur=t; tl_in=1;
    setup_policy(); g_active=true;
    tl_in=0; fn(); tl_in=1;
    finish_orphans();
    note("incarnation end"); R->finished=1; die(0);
  }
  int st=0; while(waitpid(p,&st,0)<0 && errno==EINTR){}
  if(R->status>=2) die(R->status);
  if(WIFSIGNALED(st)){ int s=WTERMSIG(st); if(s==SIGKILL){ R->status=3; snprintf(R->msg,sizeof R->msg,"run was killed from outside"); die(3);} fail("crash-signal","the process died with signal %d",s); }
  if(WEXITSTATUS(st)==0 && R->finished) return INC_OK;
  if(WEXITSTATUS(st)==77 && R->crashed) return INC_CRASHED;
  fail("unexpected-exit","the simulated process ended itself with exit status %d",WEXITSTATUS(st));
}
} // namespace sim
