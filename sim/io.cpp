// Simulated disk, processes and loader.  The "disk" is a scratch directory; every path the code
// under test uses below /tmp/ or /simfs/ is mapped into it.  Child processes are simulated: the code
// between fork and exec runs for real in a real child, the exec'd compiler is a simulated process
// whose output is produced by the real compiler (memoised) and delivered in scheduled pieces.
#include "core.h"
#include <dlfcn.h>
#include <stdarg.h>
#include <stdlib.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <dirent.h>
#include <spawn.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <algorithm>
using namespace sim;
template<class F> static F real(const char* n){ return (F)dlsym(RTLD_NEXT,n); }
#define REAL(ret,name,...) static ret (*r)(__VA_ARGS__) = real<ret(*)(__VA_ARGS__)>(name)
#define EXP extern "C" __attribute__((visibility("default")))

namespace sim {
static unsigned char fdopen_[4096];            // descriptors opened by the code under test
int open_fds(){ int n=0; for(int i=0;i<4096;i++) n+=fdopen_[i]; return n; }
static void fd_add(int fd){ if(fd>=0&&fd<4096) fdopen_[fd]=1; }
static void fd_del(int fd){ if(fd>=0&&fd<4096) fdopen_[fd]=0; }
static bool fd_mine(int fd){ return fd>=0&&fd<4096&&fdopen_[fd]; }

static const char* map_path(const char* p,char* buf,bool* mapped=nullptr){
  if(mapped) *mapped=false; if(!p||!g_active) return p;
  if(!strncmp(p,g_disk.c_str(),g_disk.size())){ if(mapped) *mapped=true; return p; }
  if(!strncmp(p,"/tmp/",5) || !strcmp(p,"/tmp")){ snprintf(buf,4096,"%s/tmp%s",g_disk.c_str(),p+4); if(mapped) *mapped=true; return buf; }
  if(!strncmp(p,"/simfs",6)){ snprintf(buf,4096,"%s/fs%s",g_disk.c_str(),p+6); if(mapped) *mapped=true; return buf; }
  return p;
}
static const char* map_write(const char* p,char* buf){ // writes never leave the scratch directory
  bool m; const char* q=map_path(p,buf,&m); if(m||!g_active||!strcmp(p,"/dev/null")) return q;
  std::string s(p); std::replace(s.begin(),s.end(),'/','_'); snprintf(buf,4096,"%s/fs/escaped_%s",g_disk.c_str(),s.c_str()); return buf;
}
static std::string virt(const char* p){ std::string s(p); if(!s.compare(0,g_disk.size(),g_disk)){ s=s.substr(g_disk.size()); if(!s.compare(0,3,"/fs")) s="/simfs"+s.substr(3); } return s; }
std::string real_path(const std::string& v){ char b[4096]; In in; bool a=g_active; g_active=true; std::string r=map_path(v.c_str(),b); g_active=a; return r; }
void sim_crash(){ tl_in++; note("process crash"); R->crashed=1; finish_orphans(); die(77); }
void crash_point(const char* what){ if(fault(F_CRASH)){ note("crash at %s",what); sim_crash(); } }
void crash_now(){ sim_crash(); }

static int (*r_open)(const char*,int,...); static ssize_t (*r_read)(int,void*,size_t); static ssize_t (*r_write)(int,const void*,size_t); static int (*r_close)(int);
static int (*r_unlink)(const char*); static int (*r_rename)(const char*,const char*);
static pid_t (*r_fork)(); static pid_t (*r_waitpid)(pid_t,int*,int); static int (*r_execv)(const char*,char*const*); static int (*r_pipe)(int*);
static void init(){ if(r_open) return; r_open=real<decltype(r_open)>("open"); r_read=real<decltype(r_read)>("read"); r_write=real<decltype(r_write)>("write"); r_close=real<decltype(r_close)>("close");
  r_unlink=real<decltype(r_unlink)>("unlink"); r_rename=real<decltype(r_rename)>("rename"); r_fork=real<decltype(r_fork)>("fork"); r_waitpid=real<decltype(r_waitpid)>("waitpid"); r_execv=real<decltype(r_execv)>("execv"); r_pipe=real<decltype(r_pipe)>("pipe"); }

bool raw_write(const std::string& v,const std::string& bytes){ In in; init(); std::string p=real_path(v); 
  size_t i=0; while((i=p.find('/',i+1))!=std::string::npos) ::syscall(SYS_mkdir,p.substr(0,i).c_str(),0777);
  int fd=r_open(p.c_str(),O_WRONLY|O_CREAT|O_TRUNC|O_CLOEXEC,0644); if(fd<0) return false; size_t o=0; while(o<bytes.size()){ ssize_t k=r_write(fd,bytes.data()+o,bytes.size()-o); if(k<=0) break; o+=k; } r_close(fd); return o==bytes.size(); }
static bool slurp(const char* p,std::string& out){ init(); int fd=r_open(p,O_RDONLY|O_CLOEXEC); if(fd<0) return false; char b[65536]; ssize_t k; out.clear(); while((k=r_read(fd,b,sizeof b))>0) out.append(b,k); r_close(fd); return true; }
std::string raw_read(const std::string& v,bool* ok){ In in; std::string s; bool o=slurp(real_path(v).c_str(),s); if(ok) *ok=o; return s; }
bool raw_exists(const std::string& v){ In in; struct stat sb; return ::syscall(SYS_newfstatat,AT_FDCWD,real_path(v).c_str(),&sb,0)==0; }
std::vector<std::string> raw_list(const std::string& v){ In in; std::vector<std::string> o; DIR* d=real<DIR*(*)(const char*)>("opendir")(real_path(v).c_str()); if(!d) return o; static auto rd=real<struct dirent*(*)(DIR*)>("readdir"); while(auto e=rd(d)){ std::string n=e->d_name; if(n!="."&&n!="..") o.push_back(n); } real<int(*)(DIR*)>("closedir")(d); std::sort(o.begin(),o.end()); return o; }
}

static bool simio(){ return on(); }
// ---------------------------------------------------------------------------- files
static int do_open(const char* path,int fl,mode_t m){
  init(); if(!g_active||!tl_self||tl_in||g_child) return r_open(path,fl,m);
  In in; char b[4096]; bool w=(fl&O_ACCMODE)!=O_RDONLY||(fl&O_CREAT); bool mapped; const char* q=w?map_write(path,b):map_path(path,b,&mapped); if(w) mapped=true;
  point(2,nullptr); if(mapped||1) crash_point("open");
  if(fault(F_OPEN_FAIL)){ errno=w?ENOSPC:EMFILE; return -1; }
  int fd=r_open(q,fl|O_CLOEXEC,m); if(fd>=0) fd_add(fd); hlog(fd>=0); return fd;
}
EXP int open(const char* p,int fl,...){ mode_t m=0; if(fl&(O_CREAT|O_TMPFILE)){ va_list a; va_start(a,fl); m=va_arg(a,mode_t); va_end(a);} return do_open(p,fl,m); }
EXP int open64(const char* p,int fl,...){ mode_t m=0; if(fl&(O_CREAT|O_TMPFILE)){ va_list a; va_start(a,fl); m=va_arg(a,mode_t); va_end(a);} return do_open(p,fl,m); }
EXP int creat(const char* p,mode_t m){ return do_open(p,O_WRONLY|O_CREAT|O_TRUNC,m); }
EXP int openat(int d,const char* p,int fl,...){ mode_t m=0; if(fl&(O_CREAT|O_TMPFILE)){ va_list a; va_start(a,fl); m=va_arg(a,mode_t); va_end(a);} if(simio()&&(d==AT_FDCWD||p[0]=='/')) return do_open(p,fl,m); REAL(int,"openat",int,const char*,int,mode_t); int fd=r(d,p,fl,m); if(simio()) fd_add(fd); return fd; }
static FILE* do_fopen(const char* path,const char* mode,FILE*(*r)(const char*,const char*)){
  if(!simio()) return r(path,mode); In in; char b[4096]; bool w=strchr(mode,'w')||strchr(mode,'a')||strchr(mode,'+'); const char* q=w?map_write(path,b):map_path(path,b);
  point(2,nullptr); crash_point("open");
  if(fault(F_OPEN_FAIL)){ errno=w?ENOSPC:EMFILE; note("open %s fails",virt(q).c_str()); return nullptr; }
  FILE* f=r(q,mode); if(f) fd_add(fileno(f)); hlog(f!=nullptr); return f;
}
EXP FILE* fopen(const char* p,const char* m){ REAL(FILE*,"fopen",const char*,const char*); return do_fopen(p,m,r); }
EXP FILE* fopen64(const char* p,const char* m){ REAL(FILE*,"fopen64",const char*,const char*); return do_fopen(p,m,r); }
EXP int fclose(FILE* f){ REAL(int,"fclose",FILE*); if(!simio()) return r(f); In in; int fd=fileno(f); bool mine=fd_mine(fd); point(2,nullptr); if(mine) crash_point("close"); fd_del(fd); int rc=r(f); if(mine&&fault(F_CLOSE_ERR)){ errno=EIO; return EOF; } return rc; }
EXP int close(int fd){ init(); if(!simio()) return r_close(fd); In in; bool mine=fd_mine(fd); point(2,nullptr); if(mine) crash_point("close"); fd_del(fd); int rc=r_close(fd); if(mine&&fault(F_CLOSE_ERR)){ errno=EIO; return -1; } return rc; }
EXP ssize_t read(int fd,void* b,size_t n){ init(); if(!simio()||!fd_mine(fd)) return r_read(fd,b,n); In in; point(2,nullptr);
  if(fault(F_READ_EINTR)){ errno=EINTR; return -1; } if(fault(F_READ_ERR)){ errno=EIO; return -1; }
  if(n>1&&fault(F_SHORT_READ)) n=1+hash64(P->seed,R->step)%(n<40?n-1:40); return r_read(fd,b,n); }
static ssize_t do_write(int fd,const void* b,size_t n){
  In in; point(2,nullptr); crash_point("before write");
  if(fault(F_WRITE_EINTR)){ errno=EINTR; return -1; }
  if(fault(F_WRITE_ENOSPC)){ size_t k=n?hash64(P->seed,R->step)%n:0; ssize_t w=k?r_write(fd,b,k):0; if(w>0&&hash64(P->seed,R->step+9)%2) return w; errno=ENOSPC; return -1; }
  if(fault(F_WRITE_EIO)){ errno=EIO; return -1; }
  if(n>1&&fault(F_SHORT_WRITE)) n=1+hash64(P->seed,R->step)%(n-1);
  if(n>1&&fault(F_CRASH)){ r_write(fd,b,1+hash64(P->seed,R->step)%(n-1)); note("crash inside write"); sim_crash(); }
  return r_write(fd,b,n);
}
EXP ssize_t write(int fd,const void* b,size_t n){ init(); if(!simio()||!fd_mine(fd)) return r_write(fd,b,n); return do_write(fd,b,n); }
EXP ssize_t writev(int fd,const struct iovec* v,int c){ REAL(ssize_t,"writev",int,const struct iovec*,int); init(); if(!simio()||!fd_mine(fd)) return r(fd,v,c);
  for(int i=0;i<c;i++) if(v[i].iov_len) { std::string all; { In in; for(int j=i;j<c;j++) all.append((const char*)v[j].iov_base,v[j].iov_len); } return do_write(fd,all.data(),all.size()); } return 0; }
EXP int fsync(int fd){ REAL(int,"fsync",int); if(!simio()) return r(fd); point(2,nullptr); return 0; }
EXP int unlink(const char* p){ init(); if(!simio()) return r_unlink(p); In in; char b[4096]; point(2,nullptr); crash_point("unlink"); int rc=r_unlink(map_write(p,b)); hlog(rc==0); return rc; }
EXP int remove(const char* p){ REAL(int,"remove",const char*); if(!simio()) return r(p); In in; char b[4096]; point(2,nullptr); crash_point("remove"); int rc=r(map_write(p,b)); hlog(rc==0); return rc; }
EXP int rename(const char* a,const char* c){ init(); if(!simio()) return r_rename(a,c); In in; char b1[4096],b2[4096]; point(2,nullptr); crash_point("before rename"); if(fault(F_RENAME_ERR)){ errno=ENOSPC; return -1; }
  int rc=r_rename(map_write(a,b1),map_write(c,b2)); note("rename %s",rc==0?"ok":"failed"); if(rc==0) crash_point("after rename"); return rc; }
EXP int mkdir(const char* p,mode_t m){ REAL(int,"mkdir",const char*,mode_t); if(!simio()) return r(p,m); In in; char b[4096]; point(2,nullptr); return r(map_write(p,b),m); }
EXP int rmdir(const char* p){ REAL(int,"rmdir",const char*); if(!simio()) return r(p); In in; char b[4096]; return r(map_write(p,b)); }
EXP int chmod(const char* p,mode_t m){ REAL(int,"chmod",const char*,mode_t); if(!simio()) return r(p,m); In in; char b[4096]; return r(map_write(p,b),m); }
EXP int truncate(const char* p,off_t n){ REAL(int,"truncate",const char*,off_t); if(!simio()) return r(p,n); In in; char b[4096]; return r(map_write(p,b),n); }
EXP int stat(const char* p,struct stat* s){ REAL(int,"stat",const char*,struct stat*); if(!simio()) return r(p,s); In in; char b[4096]; point(2,nullptr); int rc=r(map_path(p,b),s); hlog(rc==0); return rc; }
EXP int lstat(const char* p,struct stat* s){ REAL(int,"lstat",const char*,struct stat*); if(!simio()) return r(p,s); In in; char b[4096]; point(2,nullptr); return r(map_path(p,b),s); }
EXP int stat64(const char* p,struct stat64* s){ return stat(p,(struct stat*)s); }
EXP int lstat64(const char* p,struct stat64* s){ return lstat(p,(struct stat*)s); }
EXP int access(const char* p,int m){ REAL(int,"access",const char*,int); if(!simio()) return r(p,m); In in; char b[4096]; point(2,nullptr); return r(map_path(p,b),m); }
// directory order is a decision of the seed
struct SimDir { std::vector<struct dirent> e; size_t i; };
static SimDir* dirs_[64];
static thread_local std::vector<std::string> failed_dirs_;
namespace sim { std::vector<std::string>& failed_dirs(){ return failed_dirs_; } int open_dirs(){ int n=0; for(auto x:dirs_) n+=x!=nullptr; return n; } }
EXP DIR* opendir(const char* p){ REAL(DIR*,"opendir",const char*); if(!simio()) return r(p); In in; char b[4096]; point(2,nullptr); if(fault(F_OPEN_FAIL)){ failed_dirs_.push_back(p); errno=EMFILE; return nullptr; }
  DIR* d=r(map_path(p,b)); if(!d) return nullptr; static auto rd=real<struct dirent*(*)(DIR*)>("readdir"); SimDir* s=new SimDir; s->i=0; while(auto e=rd(d)) s->e.push_back(*e); real<int(*)(DIR*)>("closedir")(d);
  std::sort(s->e.begin(),s->e.end(),[](auto&a,auto&c){ return strcmp(a.d_name,c.d_name)<0; });
  for(size_t i=s->e.size();i>1;i--) std::swap(s->e[i-1],s->e[hash64(hash64(P->seed,0xD12),i)%i]);
  for(auto& x:dirs_) if(!x){ x=s; break; } return (DIR*)s; }
static bool is_sim(DIR* d){ for(auto x:dirs_) if((DIR*)x==d) return true; return false; }
EXP struct dirent* readdir(DIR* d){ REAL(struct dirent*,"readdir",DIR*); if(!simio()||!is_sim(d)) return r(d); SimDir* s=(SimDir*)d; point(2,nullptr); return s->i<s->e.size()?&s->e[s->i++]:nullptr; }
EXP struct dirent64* readdir64(DIR* d){ return (struct dirent64*)readdir(d); }
EXP int closedir(DIR* d){ REAL(int,"closedir",DIR*); if(!simio()||!is_sim(d)) return r(d); for(auto& x:dirs_) if((DIR*)x==d) x=nullptr; return 0; }
// temporary names
static int do_mkstemps(char* t,int suf,int fl){
  In in; point(2,nullptr); crash_point("mkstemp"); if(fault(F_MKSTEMP_ERR)){ errno=hash64(P->seed,R->step)%2?EMFILE:ENOSPC; return -1; }
  size_t n=strlen(t); if((int)n<6+suf){ errno=EINVAL; return -1; } char* x=t+n-suf-6; static uint64_t k; static const char A[]="abcdefghijklmnopqrstuvwxyz0123456789";
  for(int tr=0;tr<100;tr++){ uint64_t h=hash64(hash64(P->seed,0x7E39),R->incs*100000+k++); for(int i=0;i<6;i++){ x[i]=A[h%36]; h/=36; } char b[4096]; int fd=r_open(map_write(t,b),O_RDWR|O_CREAT|O_EXCL|O_CLOEXEC|fl,0600); if(fd>=0){ fd_add(fd); return fd; } if(errno!=EEXIST) return -1; }
  errno=EEXIST; return -1; }
EXP int mkstemps(char* t,int s){ REAL(int,"mkstemps",char*,int); init(); if(!simio()) return r(t,s); return do_mkstemps(t,s,0); }
EXP int mkstemp(char* t){ REAL(int,"mkstemp",char*); init(); if(!simio()) return r(t); return do_mkstemps(t,0,0); }
EXP int mkostemps(char* t,int s,int f){ REAL(int,"mkostemps",char*,int,int); init(); if(!simio()) return r(t,s,f); return do_mkstemps(t,s,f); }
EXP char* mkdtemp(char* t){ REAL(char*,"mkdtemp",char*); init(); if(!simio()) return r(t); In in; size_t n=strlen(t); static uint64_t k; uint64_t h=hash64(hash64(P->seed,0xD7E39),k++); for(int i=0;i<6;i++){ t[n-6+i]='a'+h%26; h/=26; } char b[4096]; static auto md=real<int(*)(const char*,mode_t)>("mkdir"); return md(map_write(t,b),0700)==0?t:nullptr; }

// ---------------------------------------------------------------------------- processes
struct Proc { int pid; bool exited, reaped; int status; std::vector<std::string> argv; bool via_exit; int stage; std::string out, bytes; size_t written; bool killed; Th* th; };
static Proc* procs[400]; static int nprocs; static int child_pipe=-1;
namespace sim { int live_children(){ int n=0; for(int i=0;i<nprocs;i++) n+=!procs[i]->reaped; return n; } int running_compilers(){ int n=0; for(int i=0;i<nprocs;i++) n+=!procs[i]->exited; return n; } uint64_t compile_count(){ return R->compilers; } int children_ran_exit(){ return R->child_ran_exit; } }

static void strip_comments(const std::string& s,std::string& o){ for(size_t i=0;i<s.size();){ if(s[i]=='/'&&i+1<s.size()&&s[i+1]=='*'){ size_t e=s.find("*/",i+2); i=e==std::string::npos?s.size():e+2; } else o.push_back(s[i++]); } }
static std::string fnv(const std::string& s){ uint64_t a=14695981039346656037ull,b=0x1234567; for(unsigned char c:s){ a=(a^c)*1099511628211ull; b=(b+c)*0x9E3779B97F4A7C15ull; b^=b>>29; } char o[64]; snprintf(o,64,"%016llx%016llx",(unsigned long long)a,(unsigned long long)b); return o; }
// what the real compiler makes of this source: its bytes, or false if it rejects it
static bool real_compile(Proc* p,const std::string& src,const std::string& srcpath,std::string& bytes){
  std::string stripped; strip_comments(src,stripped); std::string key=stripped; for(auto& a:p->argv) if(a!=srcpath&&a!=p->out) key+="\x01"+a;
  std::string base=g_memo+"/"+fnv(key), got; if(slurp((base+".so").c_str(),got)){ bytes=got; return true; } if(slurp((base+".bad").c_str(),got)) return false;
  __sync_fetch_and_add(&R->memo_miss,1);
  char uniq[80]; snprintf(uniq,80,".%d.%u",(int)::syscall(SYS_getpid),R->compilers);
  std::string cpp=base+uniq+".cpp", so=base+uniq+".tmp"; int fd=r_open(cpp.c_str(),O_WRONLY|O_CREAT|O_TRUNC|O_CLOEXEC,0644); size_t o=0; while(o<src.size()){ ssize_t k=r_write(fd,src.data()+o,src.size()-o); if(k<=0) break; o+=k; } r_close(fd);
  std::vector<std::string> av; for(auto& a:p->argv) av.push_back(a==srcpath?cpp:a==p->out?so:a);
  std::vector<char*> cv; for(auto& a:av) cv.push_back((char*)a.c_str()); cv.push_back(nullptr);
  bool ok=false;
  for(int attempt=0;attempt<3&&!ok;attempt++){ // again if it failed, in case this machine and not the source was the reason
    pid_t c=r_fork(); if(c<0){ struct timespec t={0,200000000}; ::syscall(SYS_nanosleep,&t,nullptr); continue; }
    if(c==0){ g_active=false; int nul=r_open("/dev/null",O_RDWR); dup2(nul,0); dup2(nul,1); dup2(nul,2); unsetenv("LD_PRELOAD"); struct sigaction sa={}; sa.sa_handler=SIG_DFL; for(int s=1;s<32;s++) sigaction(s,&sa,nullptr); r_execv(cv[0],cv.data()); die(127); }
    int st=0; while(r_waitpid(c,&st,0)<0&&errno==EINTR){} ok=WIFEXITED(st)&&WEXITSTATUS(st)==0&&slurp(so.c_str(),bytes); }
  if(ok) r_rename(so.c_str(),(base+".so").c_str());
  else { r_unlink(so.c_str()); r_rename(cpp.c_str(),(base+".bad").c_str()); }
  r_unlink(cpp.c_str());
  return ok;
}
static void append_file(const std::string& path,const std::string& all,size_t from,size_t n){ int fd=r_open(path.c_str(),O_WRONLY|O_CREAT|O_APPEND|O_CLOEXEC,0755); if(fd<0) return; size_t o=0; while(o<n){ ssize_t k=r_write(fd,all.data()+from+o,n-o); if(k<=0) break; o+=k; } r_close(fd); }
static void finish(Proc* p,int status){ p->status=status; p->exited=true; wake_all(W_PROC,p); note("compiler %d ends status %d",p->pid,status); }
static void cc_points(){ int n=1+(int)(hash64(P->seed,R->step)%3); for(int i=0;i<n;i++) point(2,nullptr); }
static void* cc_main(void* a){
  tl_in=1; Proc* p=(Proc*)a; R->compilers++;
  cc_points(); if(fault(F_CC_SLOW)){ block(W_SLEEP,nullptr,mono()+2000000000ll*(1+hash64(P->seed,R->step)%60)); }
  std::string out,src; for(size_t i=1;i<p->argv.size();i++){ if(p->argv[i]=="-o"&&i+1<p->argv.size()) out=p->argv[++i]; else { const std::string& s=p->argv[i]; size_t d=s.rfind('.'); if(s[0]!='-'&&d!=std::string::npos&&(s.substr(d)==".cpp"||s.substr(d)==".cc"||s.substr(d)==".cxx"||s.substr(d)==".C")) src=s; } }
  p->out=out; std::string text; char b[4096];
  if(out.empty()||src.empty()||!slurp(map_path(src.c_str(),b),text)){ note("compiler %d: no input",p->pid); finish(p,1<<8); return nullptr; }
  if(fault(F_CC_EXIT_NONZERO)){ cc_points(); finish(p,1<<8); return nullptr; }
  bool kill=fault(F_CC_KILLED); int kst=kill?(int)(hash64(P->seed,R->step)%5):-1;
  if(kst==0){ finish(p,SIGKILL); return nullptr; }
  cc_points();
  std::string bytes; bool ok=real_compile(p,text,src,bytes);
  if(!ok){ note("compiler %d rejects the source",p->pid); finish(p,1<<8); return nullptr; }
  std::string rout=map_write(out.c_str(),b); p->bytes=bytes;
  r_unlink(rout.c_str()); p->stage=1; 
  bool torn=fault(F_CC_TORN_OUTPUT);         // disk full while the linker writes: it fails, a truncated file may stay
  size_t n=bytes.size(), pieces=4; 
  for(size_t i=0;i<pieces;i++){ size_t a0=n*i/pieces,a1=n*(i+1)/pieces;
    if(kst==(int)i+1){ append_file(rout,bytes,a0,(a1-a0)/2); probe("compiler_killed_mid_output"); finish(p,SIGKILL); return nullptr; }
    if(torn&&i==1+hash64(P->seed,R->step)%2){ if(fault(F_CC_LEFTOVER)) append_file(rout,bytes,a0,(a1-a0)/3); else r_unlink(rout.c_str()); finish(p,1<<8); return nullptr; }
    append_file(rout,bytes,a0,a1-a0); p->written=a1; point(2,nullptr); }
  p->stage=2; finish(p,0); return nullptr;
}
namespace sim { // the incarnation ends: compilers in flight die with it or run on as orphans
void finish_orphans(){ for(int i=0;i<nprocs;i++){ Proc* p=procs[i]; if(p->exited||p->argv.empty()) continue; 
  bool survive=fault(F_ORPHAN_CC); probe(survive?"orphan_compiler_finished":"orphan_compiler_died");
  if(p->stage==1){ char b[4096]; std::string ro=map_write(p->out.c_str(),b); if(survive) append_file(ro,p->bytes,p->written,p->bytes.size()-p->written); } } } }

static Proc* new_proc(){ Proc* p=new Proc(); p->pid=10000+nprocs; p->exited=p->reaped=p->via_exit=p->killed=false; p->status=0; p->stage=0; p->written=0; p->th=nullptr; if(nprocs<400) procs[nprocs++]=p; else fail("machinery","too many processes"); return p; }
static void start(Proc* p){ p->th=new_thread(cc_main,p,true); if(!p->th) fail("machinery","too many threads"); }
static std::string sh_quote_skip; 
EXP pid_t fork(){
  init(); if(!simio()) return r_fork();
  In in; point(2,nullptr); crash_point("fork"); if(fault(F_FORK_FAIL)){ errno=EAGAIN; return -1; }
  Proc* p=new_proc(); int pp[2]; if(r_pipe(pp)){ fail("machinery","pipe"); }
  pid_t c=r_fork();
  if(c==0){ r_close(pp[0]); g_child=true; child_pipe=pp[1]; tl_in=0; return 0; }
  r_close(pp[1]); std::string m; char b[4096]; ssize_t k; while((k=r_read(pp[0],b,sizeof b))>0) m.append(b,k); r_close(pp[0]); int st=0; while(r_waitpid(c,&st,0)<0&&errno==EINTR){}
  if(!m.empty()&&m[0]=='E'){ for(size_t i=1;i<m.size();){ size_t e=m.find('\0',i); if(e==std::string::npos) break; p->argv.push_back(m.substr(i,e-i)); i=e+1; } note("exec by child %d",p->pid); start(p); }
  else if(!m.empty()&&(m[0]=='X'||m[0]=='Y')){ if(m[0]=='X'){ R->child_ran_exit++; note("child %d leaves through exit()",p->pid); } finish(p,(atoi(m.c_str()+1)&255)<<8); }
  else { note("child %d dies",p->pid); finish(p,WIFSIGNALED(st)?WTERMSIG(st):st); }
  point(2,nullptr); return p->pid;
}
EXP pid_t vfork(){ return fork(); }
static void child_exit(char k,int c){ char b[32]; int n=snprintf(b,32,"%c%d",k,c); if(r_write(child_pipe,b,n)<0){} die(c); }
EXP void exit(int c){ if(g_child){ child_exit('X',c); } REAL(void,"exit",int); r(c); __builtin_unreachable(); }
EXP void _exit(int c){ if(g_child) child_exit('Y',c); die(c); }
EXP void _Exit(int c){ _exit(c); }
static int do_exec(const char* path,char* const* argv){
  std::string m="E"; if(fault(F_EXEC_FAIL)){ errno=ENOENT; return -1; }
  if(strchr(path,'/')){ REAL(int,"access",const char*,int); if(r(path,X_OK)!=0) return -1; }
  m.append(path); m.push_back('\0'); for(int i=1;argv[i];i++){ m.append(argv[i]); m.push_back('\0'); }
  size_t o=0; while(o<m.size()){ ssize_t k=r_write(child_pipe,m.data()+o,m.size()-o); if(k<=0) break; o+=k; } die(0); }
EXP int execv(const char* p,char* const* a){ init(); if(g_child) return do_exec(p,a); return r_execv(p,a); }
EXP int execve(const char* p,char* const* a,char* const* e){ init(); if(g_child) return do_exec(p,a); REAL(int,"execve",const char*,char*const*,char*const*); return r(p,a,e); }
EXP int execvp(const char* p,char* const* a){ init(); if(g_child) return do_exec(p,a); REAL(int,"execvp",const char*,char*const*); return r(p,a); }
EXP int posix_spawn(pid_t* o,const char* path,const posix_spawn_file_actions_t* fa,const posix_spawnattr_t* at,char* const* argv,char* const* env){
  REAL(int,"posix_spawn",pid_t*,const char*,const posix_spawn_file_actions_t*,const posix_spawnattr_t*,char*const*,char*const*); init(); if(!simio()) return r(o,path,fa,at,argv,env);
  In in; point(2,nullptr); crash_point("spawn"); if(fault(F_FORK_FAIL)) return EAGAIN; if(fault(F_EXEC_FAIL)) return ENOENT; Proc* p=new_proc(); p->argv.push_back(path); for(int i=1;argv[i];i++) p->argv.push_back(argv[i]); start(p); if(o) *o=p->pid; point(2,nullptr); return 0; }
EXP int posix_spawnp(pid_t* o,const char* path,const posix_spawn_file_actions_t* fa,const posix_spawnattr_t* at,char* const* argv,char* const* env){ return posix_spawn(o,path,fa,at,argv,env); }
EXP pid_t waitpid(pid_t pid,int* st,int opt){
  init(); if(!simio()) return r_waitpid(pid,st,opt);
  In in; point(2,nullptr); crash_point("wait"); if(fault(F_WAIT_EINTR)){ errno=EINTR; return -1; }
  for(;;){ Proc* any=nullptr; bool exist=false; for(int i=0;i<nprocs;i++){ Proc* p=procs[i]; if(p->reaped) continue; if(pid>0&&p->pid!=pid) continue; exist=true; if(p->exited){ any=p; break; } if(pid>0) any=p; }
    if(!exist){ errno=ECHILD; return -1; } if(any&&any->exited){ any->reaped=true; if(st) *st=any->status; note("reaped %d",any->pid); return any->pid; }
    if(opt&WNOHANG) return 0; 
    if(any) block(W_PROC,any,-1); else { block(W_SLEEP,nullptr,mono()+1000000); } }
}
EXP pid_t wait(int* st){ return waitpid(-1,st,0); }
EXP pid_t wait4(pid_t p,int* st,int o,struct rusage* ru){ REAL(pid_t,"wait4",pid_t,int*,int,struct rusage*); if(!simio()) return r(p,st,o,ru); return waitpid(p,st,o); }
EXP int kill(pid_t p,int s){ REAL(int,"kill",pid_t,int); if(!g_active) return r(p,s); return 0; }
// ---------------------------------------------------------------------------- loader
EXP void* dlopen(const char* p,int fl){ REAL(void*,"dlopen",const char*,int); if(!simio()||!p) return r(p,fl); In in; char b[4096]; point(2,nullptr); crash_point("dlopen");
  if(fault(F_DLOPEN_FAIL)){ note("dlopen fails"); r("/nonexistent/ampsim.so",RTLD_NOW); return nullptr; }
  void* h=r(map_path(p,b),fl); note("dlopen %s",h?"ok":"failed"); return h; }
