// Hooks that gcc's -fsanitize=thread emits: every instrumented access is a scheduling point
// candidate and is checked against the happens-before relation of the simulated run.
#include "core.h"
using namespace sim;
#define EXP extern "C" __attribute__((visibility("default")))
#define PC __builtin_return_address(0)
typedef __int128 i128;

EXP void __tsan_init(){} 
EXP void __tsan_func_entry(void*){} EXP void __tsan_func_exit(){}
#define RW(n) \
EXP void __tsan_read##n(void* a){ if(on()) mem_access((uintptr_t)a,n,false,false,PC); } \
EXP void __tsan_write##n(void* a){ if(on()) mem_access((uintptr_t)a,n,true,false,PC); } \
EXP void __tsan_unaligned_read##n(void* a){ if(on()) mem_access((uintptr_t)a,n,false,false,PC); } \
EXP void __tsan_unaligned_write##n(void* a){ if(on()) mem_access((uintptr_t)a,n,true,false,PC); } \
EXP void __tsan_read##n##_pc(void* a,void* p){ if(on()) mem_access((uintptr_t)a,n,false,false,p); } \
EXP void __tsan_write##n##_pc(void* a,void* p){ if(on()) mem_access((uintptr_t)a,n,true,false,p); } \
EXP void __tsan_volatile_read##n(void* a){ if(on()) mem_access((uintptr_t)a,n,false,true,PC); } \
EXP void __tsan_volatile_write##n(void* a){ if(on()) mem_access((uintptr_t)a,n,true,true,PC); } \
EXP void __tsan_unaligned_volatile_read##n(void* a){ if(on()) mem_access((uintptr_t)a,n,false,true,PC); } \
EXP void __tsan_unaligned_volatile_write##n(void* a){ if(on()) mem_access((uintptr_t)a,n,true,true,PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
// an equal value is not written by another thread in the sense of a race; counted all the same, what was there before may be left from anything
EXP void __tsan_vptr_update(void** a,void* v){ if(on()) mem_access((uintptr_t)a,8,*a!=v,false,PC); }
EXP void __tsan_vptr_read(void** a){ if(on()) mem_access((uintptr_t)a,8,false,false,PC); }
EXP void __tsan_read_range(void* a,size_t n){ if(on()&&n) mem_access((uintptr_t)a,n>65536?65536:n,false,false,PC); }
EXP void __tsan_write_range(void* a,size_t n){ if(on()&&n) mem_access((uintptr_t)a,n>65536?65536:n,true,false,PC); }

// An atomic that one thread alone has used is not worth a scheduling point, and its clock is kept as one number
static void pre(const void* a,unsigned n,bool w,int mo,void* pc){
  (void)mo; { In in; Sync* s=sync_of(a,6); int me=tl_self->id;
    if(s->tid<0) s->tid=me;
    else if(!s->multi && s->tid!=me){ s->multi=true; if(s->rclk){ release(&s->vc); tl_self->vc.c[me]--; *s->vc=T[s->tid]->vc; s->vc->c[s->tid]=s->rclk; } }
    if(s->multi) point(2,a); }
  mem_access((uintptr_t)a,n,w,true,pc);
}
static void acq(const void* a,int mo){ if(mo==__ATOMIC_RELAXED||mo==__ATOMIC_RELEASE) return; In in; acquire(sync_of(a,6)->vc); }
static void rel(const void* a,int mo){ if(mo==__ATOMIC_RELAXED||mo==__ATOMIC_ACQUIRE||mo==__ATOMIC_CONSUME) return; In in; Sync* s=sync_of(a,6); if(s->multi) release(&s->vc); else s->rclk=tl_self->vc.c[tl_self->id]++; }
#define AT(bits,T) \
EXP T __tsan_atomic##bits##_load(const volatile T* a,int mo){ bool o=on(); if(o) pre((const void*)a,sizeof(T),false,mo,PC); T v=__atomic_load_n(a,__ATOMIC_SEQ_CST); if(o) acq((const void*)a,mo); return v; } \
EXP void __tsan_atomic##bits##_store(volatile T* a,T v,int mo){ bool o=on(); if(o){ pre((const void*)a,sizeof(T),true,mo,PC); rel((const void*)a,mo);} __atomic_store_n(a,v,__ATOMIC_SEQ_CST); } \
EXP T __tsan_atomic##bits##_exchange(volatile T* a,T v,int mo){ bool o=on(); if(o){ pre((const void*)a,sizeof(T),true,mo,PC); acq((const void*)a,mo); rel((const void*)a,mo);} return __atomic_exchange_n(a,v,__ATOMIC_SEQ_CST); } \
EXP int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a,T* e,T v,int mo,int fmo){ bool o=on(); if(o) pre((const void*)a,sizeof(T),true,mo,PC); T ex=*e; bool ok=__atomic_compare_exchange_n(a,&ex,v,false,__ATOMIC_SEQ_CST,__ATOMIC_SEQ_CST); if(o){ if(ok){ acq((const void*)a,mo); rel((const void*)a,mo);} else acq((const void*)a,fmo); } if(!ok) *e=ex; return ok; } \
EXP int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a,T* e,T v,int mo,int fmo){ return __tsan_atomic##bits##_compare_exchange_strong(a,e,v,mo,fmo); } \
EXP T __tsan_atomic##bits##_compare_exchange_val(volatile T* a,T e,T v,int mo,int fmo){ __tsan_atomic##bits##_compare_exchange_strong(a,&e,v,mo,fmo); return e; }
#define FO(bits,T,nm,fn) \
EXP T __tsan_atomic##bits##_fetch_##nm(volatile T* a,T v,int mo){ bool o=on(); if(o){ pre((const void*)a,sizeof(T),true,mo,PC); acq((const void*)a,mo); rel((const void*)a,mo);} return fn(a,v,__ATOMIC_SEQ_CST); }
#define ALL(bits,T) AT(bits,T) FO(bits,T,add,__atomic_fetch_add) FO(bits,T,sub,__atomic_fetch_sub) FO(bits,T,and,__atomic_fetch_and) FO(bits,T,or,__atomic_fetch_or) FO(bits,T,xor,__atomic_fetch_xor) FO(bits,T,nand,__atomic_fetch_nand)
ALL(8,uint8_t) ALL(16,uint16_t) ALL(32,uint32_t) ALL(64,uint64_t)
static char fence_obj;
EXP void __tsan_atomic_thread_fence(int){ if(on()){ In in; point(2,&fence_obj); Sync* s=sync_of(&fence_obj,7); acquire(s->vc); release(&s->vc); } __atomic_thread_fence(__ATOMIC_SEQ_CST); }
EXP void __tsan_atomic_signal_fence(int){}
