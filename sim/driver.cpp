// Command line driver: runs seeds (each in its own process), prints one JSON line per run.
#include "core.h"
#include <stdlib.h>
#include <unistd.h>
#include <fcntl.h>
#include <dlfcn.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <map>
#include <ftw.h>
using namespace sim;
static std::vector<Check>& checks(){ static std::vector<Check> c; return c; }
__attribute__((visibility("default"))) void register_check(const Check& c){ checks().push_back(c); }

static std::string esc(const char* s){ std::string o; for(;*s;s++){ unsigned char c=*s; if(c=='"'||c=='\\'){ o+='\\'; o+=c; } else if(c<32||c>126){ char b[8]; snprintf(b,8,"\\u%04x",c); o+=b; } else o+=c; } return o; }
static int rmf(const char* p,const struct stat*,int,struct FTW*){ return ::remove(p); }
static void wipe(const std::string& d){ nftw(d.c_str(),rmf,16,FTW_DEPTH|FTW_PHYS); }
static double wall(){ struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }

static void emit(FILE* f,const Plan& p,bool full){
  fprintf(f,"{\"seed\":%llu,\"status\":%d,\"cls\":\"%s\",\"msg\":\"%s\",\"steps\":%llu,\"mem\":%llu,\"switches\":%llu,\"sim_ns\":%llu,\"incs\":%llu,\"timers\":%llu,\"sched_hash\":\"%016llx\",\"log_hash\":\"%016llx\",\"threads\":%u,\"compilers\":%u,\"memo_miss\":%u",
    (unsigned long long)p.seed,(int)R->status,esc(R->cls).c_str(),esc(R->msg).c_str(),(unsigned long long)R->step,(unsigned long long)R->mem,(unsigned long long)R->switches,(unsigned long long)R->simtime,(unsigned long long)R->incs,(unsigned long long)R->ntimers,
    (unsigned long long)R->sched_hash,(unsigned long long)R->log_hash,R->nthreads_total,R->compilers,R->memo_miss);
  fprintf(f,",\"fired\":{"); bool c=false; for(int k=0;k<F_NKINDS;k++) if(R->fired[k]){ fprintf(f,"%s\"%s\":%u",c?",":"",fault_name(k),R->fired[k]); c=true; }
  fprintf(f,"},\"probes\":{"); for(uint32_t i=0;i<R->nprobe;i++) fprintf(f,"%s\"%s\":%u",i?",":"",esc(R->probes[i].name).c_str(),R->probes[i].n);
  fprintf(f,"}"); 
  if(full||R->status!=1){
    fprintf(f,",\"params\":{"); for(uint32_t i=0;i<R->nparam;i++) fprintf(f,"%s\"%s\":[%ld,%ld,%ld]",i?",":"",esc(R->params[i].name).c_str(),R->params[i].v,R->params[i].lo,R->params[i].hi);
    fprintf(f,"},\"sched\":["); for(uint32_t i=0;i<R->nsched;i++) fprintf(f,"%s[%llu,%d]",i?",":"",(unsigned long long)R->sched[i].step,R->sched[i].tid);
    fprintf(f,"],\"faults\":["); for(uint32_t i=0;i<R->nfault;i++) fprintf(f,"%s[\"%s\",%u]",i?",":"",fault_name(R->faults[i].kind),R->faults[i].occ);
    fprintf(f,"],\"sched_overflow\":%s",R->nsched>=MAX_SCHED||R->nfault>=MAX_FAULT?"true":"false");
    R->log[R->loglen<LOG_CAP?R->loglen:LOG_CAP-1]=0; std::string lg(R->log); if(lg.size()>12000) lg="..."+lg.substr(lg.size()-12000); fprintf(f,",\"log\":\"%s\"",esc(lg.c_str()).c_str());
  }
  fprintf(f,"}\n"); fflush(f);
}
static void reset(){ memset((void*)R,0,offsetof(Rec,sched)); R->nfault=0; memset(R->occ,0,sizeof R->occ); memset(R->fired,0,sizeof R->fired); R->nprobe=R->nparam=0; R->loglen=R->logtrunc=0; memset(R->sh,0,sizeof R->sh); R->shlen=0; }
static void run_one(const Check& ck,const Plan& p,double timeout){
  reset(); P=&p; wipe(g_disk); ::mkdir(g_disk.c_str(),0755); ::mkdir((g_disk+"/tmp").c_str(),0755); ::mkdir((g_disk+"/fs").c_str(),0755);
  pid_t c=fork();
  if(c==0){ setpgid(0,0); if(!g_verbose){ int n=open("/dev/null",O_RDWR); dup2(n,0); dup2(n,1); dup2(n,2); } ck.run(); if(R->status==0) R->status=1; _exit(0); }
  int st=0; double t0=wall(); useconds_t nap=200;
  for(;;){ pid_t w=waitpid(c,&st,WNOHANG); if(w==c) break; if(wall()-t0>timeout){ kill(-c,SIGKILL); kill(c,SIGKILL); waitpid(c,&st,0); R->status=3; snprintf(R->msg,sizeof R->msg,"run exceeded %g s of real time",timeout); break; } usleep(nap); if(nap<2000) nap+=100; }
  kill(-c,SIGKILL);
  if(R->status==0){ R->status=3; snprintf(R->msg,sizeof R->msg,"run ended without a verdict (wait status %d)",st); }
}
static bool load_plan(const char* f,Plan& p){ std::ifstream in(f); if(!in) return false; std::string k; while(in>>k){ if(k=="check") in>>p.check; else if(k=="seed") in>>p.seed; else if(k=="param"){ std::string n; long v; in>>n>>v; p.params.push_back({n,v}); } else if(k=="sched"){ uint64_t s; int t; in>>s>>t; p.sched.push_back({s,t}); } else if(k=="fault"){ std::string n; uint32_t o; in>>n>>o; for(int i=0;i<F_NKINDS;i++) if(n==fault_name(i)) p.faults.push_back({i,o}); } else if(k=="replay"){ p.replay=true; } else { std::string rest; std::getline(in,rest); } } return true; }

__attribute__((visibility("default"))) int sim_main(int argc,char** argv){
  if(!(personality(0xffffffff)&ADDR_NO_RANDOMIZE) && !getenv("AMPSIM_REEXEC")){ personality(ADDR_NO_RANDOMIZE); setenv("AMPSIM_REEXEC","1",1); execv("/proc/self/exe",argv); }
  setenv("LC_ALL","C",1); unsetenv("AMPGEN_CXX"); unsetenv("AMPGENROOT"); setenv("USER","sim",1);
  std::string check,plan,disk="/tmp/ampsim",memo; uint64_t s0=1,n=1,stride=1; double budget=1e9,timeout=60; uint64_t least=0; bool full=false; int maxviol=1<<30;
  for(int i=1;i<argc;i++){ std::string a=argv[i]; auto v=[&]{ return std::string(argv[++i]); };
    if(a=="--check") check=v(); else if(a=="--seed") s0=strtoull(v().c_str(),0,10); else if(a=="--n") n=strtoull(v().c_str(),0,10); else if(a=="--stride") stride=strtoull(v().c_str(),0,10); else if(a=="--plan") plan=v(); else if(a=="--disk") disk=v(); else if(a=="--memo") memo=v();
    else if(a=="--budget") budget=atof(v().c_str()); else if(a=="--least") least=atoi(v().c_str()); else if(a=="--timeout") timeout=atof(v().c_str()); else if(a=="--full") full=true; else if(a=="--verbose") g_verbose=true; else if(a=="--maxviol") maxviol=atoi(v().c_str()); else if(a=="--list"){ for(auto& c:checks()) printf("%s\n",c.id); return 0; } else { fprintf(stderr,"bad argument %s\n",a.c_str()); return 2; } }
  R=(Rec*)mmap(nullptr,sizeof(Rec),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); g_disk=disk; g_memo=memo; ::mkdir(memo.c_str(),0755);
  Plan p; if(!plan.empty()){ if(!load_plan(plan.c_str(),p)) return 2; if(check.empty()) check=p.check; s0=p.seed; n=1; }
  p.check=check; const Check* ck=nullptr; for(auto& c:checks()) if(check==c.id) ck=&c; if(!ck){ fprintf(stderr,"no check %s\n",check.c_str()); return 2; }
  double t0=wall(); int viol=0;
  for(uint64_t i=0;i<n;i++){ if(wall()-t0>budget && (i>=least || wall()-t0>budget+360)) break; p.seed=s0+i*stride; run_one(*ck,p,timeout); emit(stdout,p,full); if(R->status==2 && ++viol>=maxviol) break; }
  if(g_verbose){ R->log[R->loglen]=0; fprintf(stderr,"%s",R->log); }
  wipe(g_disk); return 0;
}
