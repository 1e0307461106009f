// Replacement for libgomp: OpenMP teams are simulated threads.
#include "core.h"
#include <stdlib.h>
using namespace sim;
#define EXP extern "C" __attribute__((visibility("default")))

namespace sim {
struct Team { int n; void(*fn)(void*); void* data; int arrived; unsigned gen; VC* bvc; int done;
  long next,end,incr,chunk; int loop_users; unsigned loop_gen; int single_gen; bool dyn; };
}
static int forced_threads;
EXP int omp_get_max_threads(){ return forced_threads?forced_threads:(g_active?cores_now():1); }
EXP int omp_get_num_threads(){ return tl_self&&tl_self->team?tl_self->team->n:1; }
EXP int omp_get_thread_num(){ return tl_self&&tl_self->team?tl_self->team_id:0; }
EXP int omp_get_num_procs(){ return g_active?cores_now():1; }
EXP int omp_in_parallel(){ return tl_self&&tl_self->team&&tl_self->team->n>1; }
EXP void omp_set_num_threads(int n){ forced_threads=n; }
EXP double omp_get_wtime(){ return mono()*1e-9; }
EXP int omp_get_level(){ return omp_in_parallel(); }
EXP void omp_set_dynamic(int){} EXP void omp_set_nested(int){}

struct Arg { Team* t; int id; };
static void* worker(void* p){ Arg* a=(Arg*)p; tl_in++; tl_self->team=a->t; tl_self->team_id=a->id; tl_self->team_work=0; tl_in--;
  a->t->fn(a->t->data); 
  { In in; release(&a->t->bvc); a->t->done++; wake_all(W_OMP,a->t); } return nullptr; }
static void run_team(void(*fn)(void*),void* data,unsigned n,Team* t){
  int want=n?(int)n:omp_get_max_threads();
  if(!g_active||!tl_self||g_child||tl_in||omp_in_parallel()) want=1;
  Th* me=tl_self; Team* old=me?me->team:nullptr; int oid=me?me->team_id:0, ow=me?me->team_work:0;
  t->fn=fn; t->data=data; t->n=want;
  if(!me){ fn(data); return; }
  if(want>1){
    In in; point(2,t);
    int got=1; 
    if(want>MAXT-nT) want=MAXT-nT>1?MAXT-nT:1;
    if(want>1 && fault(F_THREAD_CREATE)){ want=1+(int)(hash64(P->seed,R->step)%(want-1)); } // a runtime may deliver fewer threads than asked for
    t->n=want;
    for(int i=1;i<want;i++){ Arg* a=(Arg*)region_malloc(sizeof(Arg),16,0); a->t=t; a->id=i; Th* th=new_thread(worker,a,false); th->detached=true; got++; }
    probe("omp_team");
  }
  me->team=t; me->team_id=0; me->team_work=0;
  if(t->n>1) { In in; point(2,t); }
  fn(data);
  if(t->n>1){ In in; while(t->done<t->n-1) block(W_OMP,t,-1); acquire(t->bvc); }
  me->team=old; me->team_id=oid; me->team_work=ow;
}
static Team* mkteam(){ tl_in++; Team* t=(Team*)(g_active&&tl_self?region_malloc(sizeof(Team),16,0):calloc(1,sizeof(Team))); memset(t,0,sizeof *t); tl_in--; return t; }
EXP void GOMP_parallel(void(*fn)(void*),void* data,unsigned n,unsigned){ run_team(fn,data,n,mkteam()); }
EXP void GOMP_barrier(){ Th* m=tl_self; if(!m||!m->team||m->team->n<2) return; Team* t=m->team; In in; point(2,t); release(&t->bvc);
  if(++t->arrived==t->n){ t->arrived=0; t->gen++; wake_all(W_BARRIER,t); } else { unsigned g=t->gen; while(t->gen==g) block(W_BARRIER,t,-1); } acquire(t->bvc); point(2,t); }
static char crit_default, atom_default;
static void lk(void* a){ if(!on()) return; In in; point(2,a); Sync* s=sync_of(a,8); while(s->owner>=0) block(W_MUTEX,a,-1); s->owner=tl_self->id; acquire(s->vc); }
static void ul(void* a){ if(!on()) return; { In in; Sync* s=sync_of(a,8); s->owner=-1; release(&s->vc); wake_all(W_MUTEX,a); } point(2,a); }
EXP void GOMP_critical_start(){ lk(&crit_default); } EXP void GOMP_critical_end(){ ul(&crit_default); }
EXP void GOMP_critical_name_start(void** p){ lk(p); } EXP void GOMP_critical_name_end(void** p){ ul(p); }
EXP void GOMP_atomic_start(){ lk(&atom_default); } EXP void GOMP_atomic_end(){ ul(&atom_default); }
EXP bool GOMP_single_start(){ Th* m=tl_self; if(!m||!m->team||m->team->n<2) return true; In in; point(2,m->team); m->team_work++; if(m->team->single_gen<m->team_work){ m->team->single_gen=m->team_work; return true; } return false; }
// work sharing loops: every thread enters loop number team_work
static bool loop_next(long* s,long* e){ Th* m=tl_self; Team* t=m->team; In in; point(2,&t->next);
  bool up=t->incr>0; if(up?t->next>=t->end:t->next<=t->end) return false;
  long c=t->chunk*t->incr; *s=t->next; *e=t->next+c; if(up?*e>t->end:*e<t->end) *e=t->end; t->next=*e; return true; }
static bool loop_start(long a,long b,long inc,long chunk,long* s,long* e,bool dyn){
  Th* m=tl_self;
  if(!m||!m->team){ if((inc>0)?a>=b:a<=b) return false; *s=a; *e=b; if(m){ /* orphaned loop: one chunk */ } return true; }
  Team* t=m->team; { In in; point(2,t); m->team_work++; 
    if((int)t->loop_gen<m->team_work){ t->loop_gen=m->team_work; t->next=a; t->end=b; t->incr=inc; long n=(b-a)/(inc?inc:1); t->chunk=dyn?(chunk?chunk:1):(chunk?chunk:(n/t->n+1)); } }
  return loop_next(s,e); }
static bool nxt(long* s,long* e){ if(!tl_self||!tl_self->team) return false; return loop_next(s,e); }
#define LOOP(nm,dyn) EXP bool GOMP_loop_##nm##_start(long a,long b,long i,long c,long* s,long* e){ return loop_start(a,b,i,c,s,e,dyn); } EXP bool GOMP_loop_##nm##_next(long* s,long* e){ return nxt(s,e); } \
 EXP bool GOMP_loop_ull_##nm##_start(bool up,unsigned long long a,unsigned long long b,unsigned long long i,unsigned long long c,unsigned long long* s,unsigned long long* e){ (void)up; return loop_start((long)a,(long)b,(long)i,(long)c,(long*)s,(long*)e,dyn); } EXP bool GOMP_loop_ull_##nm##_next(unsigned long long* s,unsigned long long* e){ return nxt((long*)s,(long*)e); }
LOOP(static,false) LOOP(dynamic,true) LOOP(guided,true) LOOP(nonmonotonic_dynamic,true) LOOP(nonmonotonic_guided,true) LOOP(maybe_nonmonotonic_runtime,true) LOOP(nonmonotonic_runtime,true)
EXP bool GOMP_loop_runtime_start(long a,long b,long i,long* s,long* e){ return loop_start(a,b,i,1,s,e,true); } EXP bool GOMP_loop_runtime_next(long* s,long* e){ return nxt(s,e); }
EXP void GOMP_loop_end_nowait(){} EXP void GOMP_loop_end(){ GOMP_barrier(); }
#define PLOOP(nm,dyn) EXP void GOMP_parallel_loop_##nm(void(*fn)(void*),void* d,unsigned n,long a,long b,long i,long c,unsigned){ Team* t=mkteam(); t->loop_gen=0; t->next=a; t->end=b; t->incr=i; \
   int w=n?(int)n:omp_get_max_threads(); long cnt=(b-a)/(i?i:1); t->chunk=dyn?(c?c:1):(c?c:(cnt/w+1)); run_team(fn,d,n,t); }
PLOOP(static,false) PLOOP(dynamic,true) PLOOP(guided,true) PLOOP(nonmonotonic_dynamic,true) PLOOP(nonmonotonic_guided,true) PLOOP(maybe_nonmonotonic_runtime,true) PLOOP(nonmonotonic_runtime,true)
