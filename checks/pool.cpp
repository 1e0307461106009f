// Thread pool: AmpGen/ThreadPool.h, src/ThreadPool.cpp
#include "util.h"
#include "AmpGen/ThreadPool.h"
#include "AmpGen/OptionsParser.h"
#include <list>
using namespace AmpGen;
namespace {
struct Cell { int runs = 0; bool accepted = false, rejected = false; };
struct MyError { int id; };
const int CH = 3;

void common_faults(){
  if(F(1,2,"spurious")) sim::enable(sim::F_SPURIOUS_WAKE, 1, 4);
  if(F(1,4,"stalls"))   sim::enable(sim::F_STALL, 1, 40);
  if(F(1,3,"races_off")) sim::detect_races(false);
  if(F(1,3,"nomem"))   sim::preempt_memory(false);
}
// Pool construction may be refused when no thread at all can be started; it must not die.
std::unique_ptr<ThreadPool> make_pool(size_t n){
  try { return std::make_unique<ThreadPool>(n); }
  catch(const std::system_error&){ sim::probe("pool_refused"); return nullptr; }
}
void body(int kind, int i){
  switch(kind){
    case 1: sim::sleep_ns(1000000ll*(1+i%5)); break;
    case 2: sim::yield(); sim::yield(); break;
    case 3: for(int k=0;k<3;k++) sim::yield(); break;
    default: break;
  }
}
struct W {                                       // one exactly-once workload
  int nsub, ntask; std::vector<Cell> top, child; ThreadPool* tp=nullptr; bool nested, keep;
  void task(int i){
    top[i].runs++;
    body(P(0,3,"kind%d",i), i);
    if(nested && P(0,2,"nest%d",i)==0){
      int n=P(1,CH,"nch%d",i);
      for(int c=0;c<n;c++){ Cell& q=child[i*CH+c];
        try { auto f = tp->enqueue([this,i,c]{ child[i*CH+c].runs++; body(P(0,2,"ck%d_%d",i,c), c); }); q.accepted = true; (void)f; sim::probe("task_submits_task"); }
        catch(const std::runtime_error&){ q.rejected = true; sim::probe("submit_rejected_during_shutdown"); } }
    }
    if(P(0,5,"thr%d",i)==0) throw MyError{i};
  }
  void submit(int s, std::vector<std::future<void>>& out){
    bool oom = F(1,4,"oom%d",s);
    for(int k=0;k<ntask;k++){ int i=s*ntask+k;
      try {
        if(oom) sim::alloc_scope(true);
        auto f = tp->enqueue([this,i]{ task(i); });
        sim::alloc_scope(false); top[i].accepted = true; out.push_back(std::move(f));
      } catch(const std::bad_alloc&){ sim::alloc_scope(false); top[i].rejected = true; sim::probe("submit_out_of_memory"); }
      if(P(0,2,"gap%d",i)==0) sim::yield();
    }
  }
  void verify(const std::vector<Cell>& v, const char* what){
    for(size_t i=0;i<v.size();i++){
      if(v[i].accepted && v[i].runs==0) sim::fail("task-lost","an accepted %s task (%zu) was never run", what, i);
      if(v[i].runs>1) sim::fail("task-repeated","%s task %zu was run %d times", what, i, v[i].runs);
      if(v[i].rejected && v[i].runs) sim::fail("rejected-task-ran","%s task %zu was rejected and run", what, i);
    }
  }
};
void exactly_once(){
  W w; w.nsub=P(1,3,"submitters"); w.ntask=P(0,7,"tasks"); w.nested=F(1,2,"nested"); w.keep=F(1,2,"keep");
  w.top.resize(w.nsub*w.ntask); w.child.resize(w.nsub*w.ntask*CH);
  int rounds=1;
  sim::faults_stop(); sim::faults_resume();
  for(int r=0;r<rounds;r++){
    auto pool=make_pool(P(0,5,"workers")); if(!pool) return; w.tp=pool.get();
    std::vector<std::vector<std::future<void>>> fs(w.nsub); std::vector<std::thread> th;
    { sim::NoFault nf; for(int s=1;s<w.nsub;s++) th.emplace_back([&,s]{ w.submit(s,fs[s]); }); }
    w.submit(0,fs[0]); for(auto& t:th) t.join();
    if(!w.keep) fs.clear();                      // dropping the futures must not drop the tasks
    else if(F(1,2,"wait")) for(auto& v:fs) for(auto& f:v){ f.wait(); }
    pool.reset();
  }
  w.verify(w.top,"submitted"); w.verify(w.child,"nested");
}
}

SIM_CHECK(P01){
  sim::incarnation([]{
    common_faults();
    if(F(1,3,"few_threads")) sim::enable(sim::F_THREAD_CREATE, 1, 4);
    sim::enable(sim::F_BAD_ALLOC, 1, 12);
    exactly_once();
  });
}

// ---- every handle delivers the outcome of its own task ------------------------------------------
namespace {
struct Payload { int a=0; std::string s; std::vector<int> v; };
void outcomes(ThreadPool* tp){
  int n=P(1,8,"tasks"); std::vector<Payload> pay(n); std::vector<std::future<std::string>> fs(n); std::vector<std::future<std::unique_ptr<int>>> fm(n); std::vector<std::future<void>> fv(n);
  std::vector<std::shared_future<int>> fi(n);
  for(int i=0;i<n;i++){
    auto work=[&pay,i]{ body(P(0,3,"kind%d",i),i); pay[i].a=1000+i; pay[i].s="payload"+std::to_string(i); pay[i].v.assign(5,i); if(P(0,3,"thr%d",i)==0){ if(i%2) throw MyError{i}; throw std::out_of_range("task"+std::to_string(i)); } };
    switch(P(0,5,"ret%d",i)){
      case 0: fs[i]=tp->enqueue([work,i]{ work(); return "r"+std::to_string(i); }); break;
      case 1: fm[i]=tp->enqueue([work,i]{ work(); return std::make_unique<int>(7*i); }); break;
      case 2: fv[i]=tp->enqueue([work]{ work(); }); break;
      case 3: fi[i]=tp->enqueue([work,i]{ work(); return 3*i+1; }).share(); break;
      case 4: { int a=i; std::string t="arg"; std::vector<int> v(3,i); fs[i]=tp->enqueue([work](int a,const std::string& t,std::vector<int> v){ work(); return t+std::to_string(a+v[2]); },a,t,v); a=-1; t="changed"; v.assign(3,-9); break; }   // arguments are those at submission
      case 5: { auto q=std::make_shared<int>(5*i); fi[i]=tp->enqueue([work](const std::shared_ptr<int>& q){ work(); return *q; },q).share(); q.reset(); break; }
    }
  }
  auto check=[&](int i){
    bool threw=P(0,3,"thr%d",i)==0; bool got=false; int how=P(0,5,"ret%d",i);
    try {
      if(how==0){ if(P(0,1,"tw%d",i)) while(fs[i].wait_for(std::chrono::milliseconds(1))!=std::future_status::ready){ sim::probe("timed_wait_expired"); } auto r=fs[i].get(); if(r!="r"+std::to_string(i)) sim::fail("wrong-result","handle of task %d delivered '%s'",i,r.c_str()); }
      else if(how==1){ auto r=fm[i].get(); if(!r||*r!=7*i) sim::fail("wrong-result","handle of task %d delivered another task's object",i); }
      else if(how==2){ fv[i].get(); }
      else if(how==4){ auto r=fs[i].get(); if(r!="arg"+std::to_string(2*i)) sim::fail("wrong-argument","task %d was run with other arguments than it was submitted with: %s",i,r.c_str()); }
      else if(how==5){ int r=fi[i].get(); if(r!=5*i) sim::fail("wrong-argument","task %d saw %d instead of %d",i,r,5*i); }
      else { if(fi[i].get()!=3*i+1) sim::fail("wrong-result","handle of task %d delivered %d",i,fi[i].get()); }
    }
    catch(const MyError& e){ got=true; if(e.id!=i||!threw||i%2==0) sim::fail("wrong-exception","handle of task %d delivered the exception of task %d",i,e.id); }
    catch(const std::out_of_range& e){ got=true; if(!threw||i%2||e.what()!="task"+std::to_string(i)) sim::fail("wrong-exception","handle of task %d delivered '%s'",i,e.what()); }
    catch(const std::future_error& e){ sim::fail("broken-handle","handle of task %d: %s",i,e.what()); }
    if(threw && !got) sim::fail("exception-lost","the exception of task %d was not delivered",i);
    if(pay[i].a!=1000+i || pay[i].s!="payload"+std::to_string(i) || pay[i].v!=std::vector<int>(5,i)) sim::fail("effect-not-visible","effects of task %d are not visible after its handle became ready",i);
  };
  int order=P(0,2,"order");
  if(order==0) for(int i=0;i<n;i++) check(i);
  else if(order==1) for(int i=n;i-->0;) check(i);
  else { std::vector<std::thread> ws; { sim::NoFault nf; for(int t=0;t<2;t++) ws.emplace_back([&,t]{ for(int i=0;i<n;i++) if(P(0,5,"ret%d",i)==3 || P(0,5,"ret%d",i)==5 || i%2==t) check(i); }); } for(auto& t:ws) t.join(); }
}
}
SIM_CHECK(P02){
  sim::incarnation([]{
    common_faults(); if(F(1,4,"few_threads")) sim::enable(sim::F_THREAD_CREATE, 1, 4);
    auto pool=make_pool(P(1,4,"workers")); if(!pool) return;
    if(F(1,4,"late")){                       // collect after the pool is gone
      int n=P(1,5,"late_n"); std::vector<std::future<int>> f; std::vector<int> mem(n);
      for(int i=0;i<n;i++) f.push_back(pool->enqueue([i,&mem]{ body(P(0,3,"kind%d",i),i); mem[i]=i+1; if(i==2) throw MyError{i}; return i*i; }));
      pool.reset();
      for(int i=0;i<n;i++){ try { if(f[i].get()!=i*i || i==2) sim::fail("wrong-result","handle of task %d is wrong after the pool ended",i); } catch(const MyError& e){ if(i!=2||e.id!=2) sim::fail("wrong-exception","task %d",i); } catch(const std::future_error& e){ sim::fail("broken-handle","handle of task %d after the pool ended: %s",i,e.what()); }
        if(mem[i]!=i+1) sim::fail("effect-not-visible","task %d",i); }
    } else outcomes(pool.get());
  });
}

// ---- shutdown --------------------------------------------------------------------------------------
SIM_CHECK(P03){
  sim::incarnation([]{
    common_faults(); if(F(1,3,"few_threads")) sim::enable(sim::F_THREAD_CREATE, 1, 4);
    int n=P(0,8,"tasks"); std::vector<int> runs(n+8,0); bool explicit_wait=F(1,2,"explicit"); int waits=explicit_wait?P(1,2,"waits"):0; int late=0, late_ok=0;
    std::vector<std::future<int>> lf;
    {
      auto pool=make_pool(P(0,5,"workers")); if(!pool) return;
      for(int i=0;i<n;i++) { pool->enqueue([&runs,i]{ body(P(0,3,"kind%d",i),i); runs[i]++; if(i%4==3) throw MyError{i}; }); if(P(0,3,"gap%d",i)==0) sim::yield(); }
      int ns=waits?P(0,2,"submitters"):0; std::vector<std::vector<Cell>> sub(ns,std::vector<Cell>(3)); std::vector<std::thread> st;   // submissions while the pool is being shut down
      for(int t=0;t<ns;t++) { sim::NoFault nf; st.emplace_back([&,t]{ for(int k=0;k<3;k++){ if(P(0,2,"sgap%d_%d",t,k)==0) sim::yield(); Cell& q=sub[t][k];
        try { pool->enqueue([&q,t,k]{ body(P(0,3,"skind%d_%d",t,k),k); q.runs++; }); q.accepted=true; } catch(const std::runtime_error&){ q.rejected=true; sim::probe("submit_rejected_during_shutdown"); } } }); }
      for(int k=0;k<waits;k++){
        pool->waitForStoppedThreads(); for(auto& t:st) t.join(); st.clear(); 
        for(auto& v:sub) for(auto& q:v){ if(q.accepted&&q.runs!=1) sim::fail("silently-dropped","a task accepted while the pool was shut down has run %d times",q.runs); if(q.rejected&&q.runs) sim::fail("rejected-task-ran","a task refused while the pool was shut down was run"); }
        if(sim::live_threads()!=1) sim::fail("worker-left","%d workers are alive after waiting for the pool",sim::live_threads()-1);
        for(int i=0;i<n;i++) if(runs[i]!=1) sim::fail("not-drained","after waiting for the pool, task %d has run %d times",i,runs[i]);
        if(F(1,2,"late%d",k)){ late++;
          try { lf.push_back(pool->enqueue([&late_ok]{ late_ok++; return 41; })); } catch(const std::runtime_error&){ late--; sim::probe("late_submit_rejected"); } }
      }
    }
    if(sim::live_threads()!=1) sim::fail("worker-left","%d workers are alive after the pool has been destroyed",sim::live_threads()-1);
    for(int i=0;i<n;i++) if(runs[i]!=1) sim::fail("not-drained","after the pool ended, task %d has run %d times",i,runs[i]);
    if(late_ok!=late) sim::fail("silently-dropped","%d tasks were accepted after the pool was stopped, %d were run",late,late_ok);
    for(auto& f:lf){ try { if(f.get()!=41) sim::fail("wrong-result","late task"); } catch(const std::future_error& e){ sim::fail("silently-dropped","a task accepted after the stop was dropped: %s",e.what()); } }
  });
}

// ---- disabled by option -------------------------------------------------------------------------------
SIM_CHECK(P04){
  sim::incarnation([]{
    static const char* v[]={"ThreadPool::Enable false","ThreadPool::Enable 0"};
    { sim::NoFault nf; OptionsParser::setArg(v[P(0,1,"spelling")]); }
    common_faults(); if(F(1,4,"few_threads")) sim::enable(sim::F_THREAD_CREATE, 1, 4);
    int mode=P(0,2,"mode");
    if(mode==0) { auto pool=make_pool(P(0,4,"workers")); if(!pool) return; outcomes(pool.get()); }
    else if(mode==1) exactly_once();
    else {                                       // at once, in the submitting thread
      auto pool=make_pool(P(0,4,"workers")); if(!pool) return; int n=P(1,4,"n"), nt=P(1,3,"threads");
      auto submit=[&](int t){ for(int i=0;i<n;i++){ int ran=-1, count=0, thrower=P(0,3,"thr%d_%d",t,i)==0, depth=P(0,2,"depth%d_%d",t,i), arg=t*100+i;
        std::function<int(int,int)> f=[&](int d,int x){ count++; ran=sim::self(); body(P(0,3,"kind%d",i),i); if(d>0){ auto h=pool->enqueue(f,d-1,x); if(h.wait_for(std::chrono::seconds(0))!=std::future_status::ready) sim::fail("not-at-once","a task submitted by a task is not finished when its submission returns"); return h.get(); } if(thrower) throw MyError{x}; return 7*x+1; };
        std::future<int> h; try { h=pool->enqueue(f,depth,arg); } catch(const MyError&){ sim::fail("exception-escaped","the exception of a task reached the submitter other than by its handle"); }
        if(count!=depth+1) sim::fail("not-at-once","a task ran %d times instead of %d before its submission returned",count,depth+1);
        if(ran!=sim::self()) sim::fail("other-thread","a task ran in thread %d, it was submitted by thread %d to a pool that is switched off",ran,sim::self());
        if(h.wait_for(std::chrono::seconds(0))!=std::future_status::ready) sim::fail("not-at-once","a task is not finished when its submission returns");
        try { int v=h.get(); if(thrower||v!=7*arg+1) sim::fail("wrong-result","a handle delivered %d",v); } catch(const MyError& e){ if(!thrower||e.id!=arg) sim::fail("wrong-result","a handle delivered the exception of another task"); } } };
      std::vector<std::thread> th; sim::NoFault nf; for(int t=1;t<nt;t++) th.emplace_back(submit,t); submit(0); for(auto& x:th) x.join(); if(F(1,2,"wait")) pool->waitForStoppedThreads();
    }
  });
}

// ---- a blocked task does not block idle workers ----------------------------------------------------------
SIM_CHECK(P05){
  sim::incarnation([]{
    common_faults();
    int nw=P(2,6,"workers"); int groups=P(1,3,"groups"); int size=P(2,nw,"size"); int pre=P(0,4,"pre");
    ThreadPool tp(nw); std::vector<std::future<void>> fs; std::mutex m; std::condition_variable cv; std::vector<int> in(groups,0), done(groups,0);
    for(int i=0;i<pre;i++) fs.push_back(tp.enqueue([i]{ body(P(0,3,"kind%d",i),i); }));
    if(F(1,2,"settle")) sim::sleep_ns(50000000);
    // members of a group only finish together: needs `size` workers at once
    for(int g=0;g<groups;g++) for(int k=0;k<size;k++) fs.push_back(tp.enqueue([&,g]{ std::unique_lock<std::mutex> l(m); in[g]++; cv.notify_all(); cv.wait(l,[&]{ return in[g]==size; }); done[g]++; }));
    for(auto& f:fs) f.get();
    for(int g=0;g<groups;g++) if(done[g]!=size) sim::fail("wrong-result","group %d",g);
  });
}
