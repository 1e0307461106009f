// The simulation runs on a stack of its own at a fixed address, so that no run depends on the length of arguments and environment
#include <sys/mman.h>
#include <ucontext.h>
int sim_main(int,char**);
static ucontext_t back,there; static int g_c,g_rc; static char** g_v;
static void go(){ g_rc=sim_main(g_c,g_v); }
int main(int c,char** v){
  g_c=c; g_v=v; const size_t size=64ul<<20; void* s=mmap((void*)0x100000000000ull,size,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0);
  if(s==MAP_FAILED) return sim_main(c,v);
  getcontext(&there); there.uc_stack.ss_sp=s; there.uc_stack.ss_size=size; there.uc_link=&back; makecontext(&there,go,0); swapcontext(&back,&there); return g_rc;
}
