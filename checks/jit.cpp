// Just-in-time compilation: CompilerWrapper, CompiledExpression, DynamicFCN, CacheTransfer, ASTResolver
#include "live.h"
#include <string.h>
#include <thread>
#include "AmpGen/ThreadPool.h"
using namespace jit;
namespace {
const int NEXPR=16;
void quiet(){ sim::NoFault n; OptionsParser::getMe()->setQuiet(); sim::preempt_memory(!F(1,2,"nomem")); if(F(1,3,"races_off")) sim::detect_races(false); }
void jit_faults(int num,int den){
  using namespace sim;
  for(FaultKind k : {F_OPEN_FAIL,F_WRITE_ENOSPC,F_WRITE_EIO,F_CLOSE_ERR,F_RENAME_ERR,F_MKSTEMP_ERR,F_FORK_FAIL,F_EXEC_FAIL,F_CC_EXIT_NONZERO,F_CC_KILLED,F_CC_TORN_OUTPUT,F_DLOPEN_FAIL})
    if(param(fault_name(k),0,3)==0) enable(k,num,den);
  enable(F_CC_LEFTOVER,1,2);
}
void benign_faults(){ using namespace sim; if(F(1,2,"eintr")){ enable(F_WAIT_EINTR,1,3); enable(F_WRITE_EINTR,1,6); enable(F_SHORT_WRITE,1,3); } if(F(1,3,"slow")) enable(F_CC_SLOW,1,2); if(F(1,4,"stall")) enable(F_STALL,1,30); }
std::string prefix_of(int k){ static const char* p[]={"","/simfs/cache/lib","/simfs/cache/sub/amp"}; return p[k]; }
// a file that is no library sits under the name a library will have
void damage(const std::string& prefix,const std::string& name,int how){ if(prefix.empty()) return; char b[300]; snprintf(b,300,"%s_%u.so",prefix.c_str(),AmpGen::FNV1a_hash(name)); static const char* what[]={"","this is not a library\n","\177ELF\2\1\1"}; sim::raw_write(b,what[how]); sim::probe("damaged_library_in_cache"); }
void mkdirs(){ sim::raw_write("/simfs/cache/.keep",""); sim::raw_write("/simfs/cache/sub/.keep",""); }
}
// ---- success means the right value, for any history of parameter changes -----------------------------
SIM_CHECK(P08){
  sim::incarnation([]{
    quiet(); mkdirs(); benign_faults(); bool faulty=F(1,3,"faulty"); if(faulty) jit_faults(1,12);
    { sim::NoFault nf; if(F(1,3,"constants")) OptionsParser::setArg("ASTResolver::CompileTimeConstants 1"); }
    World w; std::vector<std::unique_ptr<Live>> u; bool spurious=false; int together=P(0,5,"together"); int n;
    auto compile=[&](Live& l,int pk){ Snap cur=l.now(); bool stale=memcmp(&l.s,&cur,sizeof(Snap))!=0; if(try_compile(l.base(),prefix_of(pk))==OK) l.ready=true; else if(!faulty) spurious=true; if(stale) l.update(); };
    if(together==0){ // several expressions in one library, with the parameter values of the moment built in as well
      int set=P(0,5,"set"); n=2+set%3; std::vector<CompiledExpressionBase*> v; for(int i=0;i<n;i++){ int kind=(set*5+i*7)%16; u.push_back(make_live(w,kind,nm(kind)+"_t"+std::to_string(i),kind<12)); v.push_back(&u[i]->base()); }
      try { CompilerWrapper().compile(v,"/simfs/cache/together.cpp"); for(int i=0;i<n;i++){ u[i]->ready=true; if(!u[i]->base().isReady()) sim::fail("not-ready","compilation together reported success and '%s' cannot be evaluated",u[i]->d->name.c_str()); } sim::probe("compiled_together");
        sim::NoFault nf; void* h=dlopen("/simfs/cache/together.so",RTLD_NOW); if(!h) sim::fail("wrong-value","the library is not where it was asked for");
        for(int i=0;i<n;i++) if(u[i]->d->mode==0){ auto f=(C(*)(const double*))dlsym(h,(u[i]->base().progName()+"_wParams").c_str()); if(!f) sim::fail("wrong-value","the library has no function with parameters for '%s'",u[i]->d->name.c_str()); std::vector<double> ev; fill_events(ev,2,i); for(int k=0;k<2;k++) u[i]->want(f(&ev[k*NE]),u[i]->d->c[0].f(&ev[k*NE],u[i]->s.par,u[i]->s.lam),"with its parameters built in",0); }
      } catch(const std::runtime_error&){ sim::probe("compile_failure_reported"); if(!faulty) spurious=true; }
    } else { n=P(1,2,"units"); for(int i=0;i<n;i++){ int x=P(0,NKIND-1,"kind%d",i); u.push_back(make_live(w,x,nm(x)+"_"+std::to_string(i))); } }
    int steps=P(2,16,"steps");
    for(int k=0;k<steps;k++){ int m=u.size(), i=P(0,99,"u%d",k)%m, j=P(0,99,"v%d",k)%m;
      switch(k==0&&together?0:P(0,15,"op%d",k)){
        case 0: compile(*u[i],P(0,2,"prefix%d",i)); break;
        case 1: w.mps.at(P(0,NP-1,"par%d",k))->setCurrentFitVal(P(-40,40,"val%d",k)*0.0625); break;
        case 2: w.lam[P(0,NL-1,"lam%d",k)]=P(-40,40,"lval%d",k)*0.03125; break;
        case 3: case 4: u[i]->update(); break;
        case 5: case 6: if(m<5) u.push_back(u[i]->clone()); break;
        case 7: if(i!=j) u[i]->assign(*u[j],F(1,2,"move%d",k)); break;
        case 8: u[i]->shift(); break;
        case 9: if(m>n) u.erase(u.begin()+i); break;
        case 10: { std::string pn="p"+std::to_string(P(0,NP-1,"par%d",k)); w.mps[pn]->setInit(P(-9,9,"val%d",k)*0.25); break; }
        case 11: w.mps.resetToInit(); break;
        case 12: case 13: w.mps.at(NP+P(0,NQ-1,"par%d",k))->setCurrentFitVal(wild(P(0,NWILD-1,"wild%d",k))); break;
        case 14: w.mps.at(NP+NQ+P(0,NK-1,"knot%d",k))->setCurrentFitVal(P(-20,20,"val%d",k)*0.125); break;
        default: u[i]->flag(true); break;
      }
      for(size_t q=0;q<u.size();q++) if(u[q]->ready) u[q]->verify(mix(k,q),"after a history of changes");
    }
    for(size_t q=0;q<u.size();q++){ u[q]->update(); if(u[q]->ready) u[q]->verify(1000+q,"after a final update"); }
    if(spurious) sim::fail("spurious-failure","compilation failed although nothing was wrong");
  });
}
// ---- failures are reported, and do not last --------------------------------------------------------------
SIM_CHECK(P09){
  sim::incarnation([]{
    quiet(); mkdirs(); benign_faults(); jit_faults(1,1+P(1,5,"rate")); World w; int x=P(0,NEXPR-1,"expr"); Unit u(w,x,nm(x)); std::string prefix=prefix_of(P(0,2,"prefix")); 
    int tries=P(1,4,"tries"); bool ok=false; if(F(1,4,"damaged")) damage(prefix,u.name,P(0,2,"damage"));
    for(int k=0;k<tries;k++){
      if(F(1,4,"fresh%d",k)) u.e=std::make_unique<CE>(u.pr.e,u.name,evt_map(),&w.mps);
      bool r=try_compile(*u.e,prefix)==OK; ok=ok||r; if(r||u.e->isReady()) u.verify(k,r?"after success":"although it claims to be ready after a failure");
    }
    sim::NoFault stop;
    if(F(1,2,"fresh_end")) u.e=std::make_unique<CE>(u.pr.e,u.name,evt_map(),&w.mps);
    if(try_compile(*u.e,prefix)!=OK) sim::fail("failure-lasts","compilation still fails after the faults have stopped");
    u.verify(99,"after recovery"); (void)ok;
  });
}
// ---- concurrent compilations do not disturb each other -----------------------------------------------------
SIM_CHECK(P10){
  sim::incarnation([]{
    quiet(); mkdirs(); benign_faults(); bool faulty=F(1,3,"faulty"); if(faulty) jit_faults(1,10);
    World w; int n=P(2,5,"n"); bool same_name=F(1,3,"same_name"), by_pool=F(1,2,"pool"); int pk=P(0,2,"prefix"); bool alias=!same_name&&pk==0&&F(1,2,"alias"); bool twice=F(1,4,"twice"); 
    std::vector<std::unique_ptr<Unit>> u; std::vector<char> ready(n,0), rep(n,0);
    for(int i=0;i<n;i++){ int x=same_name?P(0,NEXPR-1,"expr%d",0):P(0,NEXPR-1,"expr%d",i); u.push_back(std::make_unique<Unit>(w,x,same_name?nm(x):alias?nm(3):nm(x,i)+"_"+std::to_string(i))); }
    auto job=[&](int i){ for(int r=0;r<=(int)twice;r++){ if(try_compile(*u[i]->e,prefix_of(pk))==OK) ready[i]=1; else rep[i]=1; if(ready[i]) u[i]->verify(i,"while others compile"); } };
    if(by_pool){ std::unique_ptr<ThreadPool> tp; { sim::NoFault nf; tp=std::make_unique<ThreadPool>(P(1,4,"workers")); } std::vector<std::future<void>> f; for(int i=0;i<n;i++) f.push_back(tp->enqueue([&job,i]{ job(i); })); for(auto& x:f) x.get(); }
    else { std::vector<std::thread> th; for(int i=0;i<n;i++) th.emplace_back(job,i); for(auto& t:th) t.join(); }
    for(int i=0;i<n;i++){ if(ready[i]) u[i]->verify(50+i,"after concurrent compilation"); if(!faulty && rep[i]) sim::fail("spurious-failure","a concurrent compilation failed although nothing was wrong"); }
    sim::NoFault stop; for(int i=0;i<n;i++){ if(try_compile(*u[i]->e,prefix_of(pk))!=OK) sim::fail("failure-lasts","compilation fails after the faults have stopped"); u[i]->verify(90+i,"at the end"); }
  });
}
// ---- the library cache survives crashes ----------------------------------------------------------------------
SIM_CHECK(P11){
  struct Sh { int done; }; Sh* sh=(Sh*)sim::shared(sizeof(Sh)); 
  int n=P(1,3,"n"), rounds=P(1,4,"rounds"); int pk=P(1,2,"prefix"); bool conc=F(1,3,"concurrent"), vary=F(1,3,"vary"); 
  auto process=[&](int round,bool last){
    return sim::incarnation([=]{
      quiet(); mkdirs(); 
      if(!last){ benign_faults(); sim::enable(sim::F_CRASH,1,2+P(1,60,"crash_rate")); sim::enable(sim::F_ORPHAN_CC,1,2); if(F(1,3,"faulty")) jit_faults(1,12); }
      World w; std::vector<std::unique_ptr<Unit>> u; for(int i=0;i<n;i++){ int x=P(0,NEXPR-1,"expr%d",i); u.push_back(std::make_unique<Unit>(w,x,nm(x)+"_"+std::to_string(i))); if(vary) u[i]->variant(last?P(0,1,"variant_last%d",i):P(0,1,"variant%d_%d",round,i)); }
      auto job=[&](int i){ auto r=try_compile(*u[i]->e,prefix_of(pk)); if(r==OK) u[i]->verify(i,"from the cache"); else if(last) sim::fail("cache-poisoned","compilation fails in a process without faults"); };
      if(conc&&!last){ std::vector<std::thread> th; for(int i=0;i<n;i++) th.emplace_back(job,i); for(auto& t:th) t.join(); }
      else for(int i=0;i<n;i++) job(i);
      if(last && round==1 && sim::compile_count()!=(uint64_t)sh->done) sim::fail("cache-not-used","a library completed by an earlier process was compiled again");
      sh->done=sim::compile_count();
    });
  };
  if(F(1,4,"damaged")){ int x=P(0,NEXPR-1,"expr%d",0); damage(prefix_of(pk),nm(x)+"_0",P(0,2,"damage")); }
  for(int r=0;r<rounds;r++) if(process(r,false)==sim::INC_CRASHED) sim::probe("crashed_while_compiling");
  process(0,true); process(1,true);
}
// ---- nothing is leaked ------------------------------------------------------------------------------------------
SIM_CHECK(P12){
  sim::incarnation([]{
    quiet(); mkdirs(); benign_faults(); if(F(1,2,"faulty")) jit_faults(1,6); World w; int n=P(1,4,"n"); int fd0=sim::open_fds();
    std::vector<std::unique_ptr<Unit>> u; for(int i=0;i<n;i++){ int x=P(0,NEXPR-1,"expr%d",i); u.push_back(std::make_unique<Unit>(w,x,nm(x)+"_"+std::to_string(i))); }
    for(int i=0;i<n;i++) if(F(1,4,"damaged%d",i)) damage(prefix_of(P(0,2,"prefix%d",i)),u[i]->name,P(0,2,"damage%d",i));
    auto job=[&](int i){ int pk=P(0,2,"prefix%d",i); for(int k=0;k<1+(int)F(1,3,"again%d",i);k++) try_compile(*u[i]->e,prefix_of(pk)); };
    if(F(1,3,"concurrent")){ std::vector<std::thread> th; for(int i=0;i<n;i++) th.emplace_back(job,i); for(auto& t:th) t.join(); }
    else for(int i=0;i<n;i++) job(i);
    if(F(1,3,"multi")){ std::vector<CompiledExpressionBase*> v; std::vector<std::unique_ptr<Unit>> mu; int set=P(0,3,"mset"); for(int i=0;i<=set;i++){ int x=4*set+i; mu.push_back(std::make_unique<Unit>(w,x,nm(x)+"_m"+std::to_string(i))); v.push_back(mu.back()->e.get()); } try { CompilerWrapper().compile(v,"/simfs/cache/all.cpp"); } catch(const std::runtime_error&){ sim::probe("compile_failure_reported"); } }
    if(sim::open_fds()!=fd0) sim::fail("descriptor-leak","%d file descriptors are left open after %d compilations",sim::open_fds()-fd0,n);
    if(sim::live_children()) sim::fail("child-leak","%d compiler processes were never waited for",sim::live_children());
    if(sim::children_ran_exit()) sim::fail("child-ran-exit","a child process that could not start the compiler ran the exit handlers of its parent");
  });
}
