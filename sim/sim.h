// AmpSim: deterministic simulator for AmpGen.  Public interface used by the
// workloads (checks/*.cpp).  One seed decides every schedule, clock value and fault.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>
#include <functional>

namespace sim {

// ---- fault kinds (every one is counted when it really fires) -------------------------------
enum FaultKind : int {
  F_THREAD_CREATE, F_SPURIOUS_WAKE, F_BAD_ALLOC,
  F_OPEN_FAIL, F_READ_ERR, F_SHORT_READ, F_READ_EINTR, F_WRITE_ENOSPC, F_WRITE_EIO, F_SHORT_WRITE, F_WRITE_EINTR,
  F_CLOSE_ERR, F_RENAME_ERR, F_MKSTEMP_ERR, F_FORK_FAIL, F_EXEC_FAIL, F_WAIT_EINTR,
  F_CC_EXIT_NONZERO, F_CC_KILLED, F_CC_TORN_OUTPUT, F_CC_SLOW, F_CC_LEFTOVER, F_DLOPEN_FAIL,
  F_CRASH, F_ORPHAN_CC, F_CLOCK_JUMP, F_CLOCK_BACK, F_STALL, F_TORN_FILE, F_ENV, F_LINK_TEMP,
  F_NKINDS
};
const char* fault_name(int k);

struct Plan {                       // what decides one run
  std::string check;
  uint64_t seed = 1;
  bool replay = false;              // true: use the explicit lists below, draw nothing
  std::vector<std::pair<uint64_t,int>> sched;          // (decision step, thread)
  std::vector<std::pair<int,uint32_t>> faults;         // (kind, occurrence)
  std::vector<std::pair<std::string,long>> params;     // forced workload parameters
};

// ---- controller side (outside simulation) ---------------------------------------------------
enum Inc { INC_OK = 0, INC_CRASHED = 1 };
// Runs fn as one simulated process incarnation (its own real process).  Returns INC_OK if it ran
// to its end and INC_CRASHED if the simulator crashed it; anything else ends the run as a violation.
Inc incarnation(const std::function<void()>& fn);
void* shared(size_t bytes);                 // memory surviving incarnations (zeroed)
void step_limit(unsigned long long points);   // a run of this check may take this many scheduling points (400000 unless set)
std::string disk();                         // real directory behind the simulated disk
long   param(const char* name, long lo, long hi);     // drawn from the seed, by name
bool   flip(const char* name, int num, int den);
double unit(const char* name);

// ---- inside an incarnation --------------------------------------------------------------------
[[noreturn]] void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf,2,3)));
void note(const char* fmt, ...) __attribute__((format(printf,1,2)));  // event log + its hash
void probe(const char* name);               // "this rare condition was reached"
void yield();                               // explicit scheduling point
int  self();                                // simulated thread id
uint64_t step();                            // global event sequence number
int64_t  now_ns();                          // simulated monotonic time
void sleep_ns(int64_t ns);
bool fault(FaultKind k);                    // asks the plan whether this fault fires here
void enable(FaultKind k, int num, int den); // per-run rate of a fault kind (0 = off)
void set_max_fires(FaultKind k, int n);
void faults_stop();                         // from here on nothing is injected
void faults_resume();
void preempt_memory(bool on);               // schedule at plain memory accesses too
void mem_every(int n);                       // only every n-th of those accesses, for long computations
void track_memory(bool on);                 // off: accesses are not followed at all (single-threaded reference runs)
void detect_races(bool on);
void cores(int n);                          // hardware_concurrency / default team size
void alloc_scope(bool on);                  // allocation failures may hit this thread now
int  open_dirs();                           // directories it has open
std::vector<std::string>& failed_dirs();    // directories this thread was refused by an injected fault
int  open_fds();                            // descriptors the code under test has open
int  live_threads();                         // threads that have not ended, this one included
int  live_children();                       // simulated children that were never reaped
int  running_compilers();
int  children_ran_exit();                   // forked children that left through exit()
uint64_t compile_count();
void crash_now();
struct NoFault { NoFault(){ faults_stop(); } ~NoFault(){ faults_resume(); } };

// simulated disk helpers (raw: no faults, no scheduling)
std::string real_path(const std::string& virt);
bool raw_write(const std::string& virt, const std::string& bytes);
std::string raw_read(const std::string& virt, bool* ok = nullptr);
bool raw_exists(const std::string& virt);
std::vector<std::string> raw_list(const std::string& virtdir);

} // namespace sim

// every check defines this table in its own file
struct Check { const char* id; void (*run)(); };
void register_check(const Check&);
struct Registrar { Registrar(const char* id, void(*f)()){ register_check(Check{id,f}); } };
#define SIM_CHECK(ID) static void run_##ID(); static Registrar reg_##ID(#ID, run_##ID); static void run_##ID()
