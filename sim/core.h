// Internals of AmpSim shared between its translation units (never seen by workloads).
#pragma once
#include "sim.h"
#include <pthread.h>
#include <semaphore.h>
#include <stdio.h>
#include <string.h>
#include <errno.h>

#define LIKELY(x) __builtin_expect(!!(x),1)
#define UNLIKELY(x) __builtin_expect(!!(x),0)

namespace sim {
constexpr int MAXT = 250;
constexpr uint32_t MAX_SCHED = 1u<<18, MAX_FAULT = 1u<<14, LOG_CAP = 1u<<19, MAX_PARAM = 1200;

struct Rec {                                  // MAP_SHARED: survives the death of a run
  volatile int status;                        // 0 running, 1 ok, 2 violation, 3 machinery error
  volatile int crashed, finished;
  char cls[64]; char msg[1500];
  uint64_t step, mem, switches, simtime, incs, ntimers;
  uint64_t sched_hash, log_hash, state_hash;
  uint32_t nthreads_max, nthreads_total, compilers, memo_miss;
  uint32_t child_ran_exit;                    // a forked child went through exit()
  uint32_t nsched; struct { uint64_t step; int tid; } sched[MAX_SCHED];
  uint32_t nfault; struct { int kind; uint32_t occ; } faults[MAX_FAULT];
  uint32_t occ[F_NKINDS], fired[F_NKINDS];
  uint32_t nprobe; struct { char name[56]; uint32_t n; } probes[160];
  uint32_t nparam; struct { char name[56]; long v, lo, hi; } params[MAX_PARAM];
  uint32_t loglen; uint32_t logtrunc; char log[LOG_CAP];
  uint32_t shlen; char sh[1u<<20];
};
extern Rec* R;
extern const Plan* P;

enum State { RUNNABLE, BLOCKED, DONE };
enum Wait { W_NONE, W_MUTEX, W_COND, W_JOIN, W_ONCE, W_GUARD, W_FUTEX, W_SLEEP, W_PROC, W_BARRIER, W_RW, W_SEM, W_OMP };

struct VC { uint32_t c[MAXT+2]; };
struct Team;
struct Th {
  int id; State st; Wait wk; const void* wobj; int64_t wake_at; bool timed, timedout;
  pthread_t pt; sem_t sem; VC vc;
  void* (*fn)(void*); void* arg; void* ret; bool detached, joined, is_proc;
  int prio; char* stk; size_t stksz;
  Team* team; int team_id; int team_work;
  int alloc_scope;
};
struct Sync {                                  // one per synchronisation object address
  uintptr_t key; int kind; int owner; int count; int readers; int id; VC* vc; int64_t val;
  int tid; bool multi; uint32_t rclk;           // atomics: the only thread that used it so far, and its clock at its last release
};
extern Th* T[MAXT+2];
extern int nT;
extern bool g_active;                          // a simulation is running in this process
extern bool g_child;                           // this process is a forked pre-exec child
extern __thread Th* tl_self;
extern __thread int tl_in;                     // >0: inside the simulator, hooks are silent
struct In { In(){ tl_in++; } ~In(){ tl_in--; } };
inline bool on(){ return g_active && tl_self && !tl_in && !g_child; }

void point(int kind, const void* obj);         // voluntary scheduling point
void point_yield();                            // the thread gives up its turn
void block(Wait k, const void* obj, int64_t wake_at);  // returns when made runnable
void wake_all(Wait k, const void* obj);
bool wake_one(Wait k, const void* obj);
Sync* sync_of(const void* addr, int kind);
void acquire(VC* v); void release(VC** v);
void mem_access(uintptr_t a, unsigned size, bool write, bool atomic, void* pc);
void mem_range_free(uintptr_t a, size_t n);
void* region_malloc(size_t n, size_t align, int fill);
bool in_region(const void* p);
size_t region_size(const void* p);
Th* new_thread(void*(*fn)(void*), void* arg, bool is_proc);
int64_t mono(); int64_t realtime();
void hlog(uint64_t v);
uint64_t hash64(uint64_t a, uint64_t b);
[[noreturn]] void sim_crash();
void crash_point(const char* what);
void end_incarnation();
int cores_now();
void add_clock(int64_t ns);
void finish_orphans();
[[noreturn]] void die(int status);             // real _exit
extern uint64_t g_steps_cap;
extern std::string g_disk, g_memo;
extern bool g_verbose;
}
