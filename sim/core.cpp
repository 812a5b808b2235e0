#include "core.hpp"
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <stdio.h>
#include <stdarg.h>
#include <stdlib.h>
#include <signal.h>
#include <dlfcn.h>
#include <pthread.h>
#include <semaphore.h>
#include <time.h>
#include <math.h>
#include <new>
#include <sstream>
#include <zstd.h>
#include <iostream>

extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t,size_t); void* __libc_realloc(void*,size_t); void* __libc_memalign(size_t,size_t);
extern char __data_start[]; extern char _end[]; }

namespace sim {
const char* fault_name[F_KINDS]={"none","alloc_once","alloc_from","alloc_above_size","short_io","eintr","eio","enospc","enoent","eacces","emfile","file_shrinks","close_fails","seek_fails","stat_fails","kill_at_step","kill_at_io","power_cut","stall","clock_jump","truncated_artefact"};
const char* io_name[IO_OPS]={"open","read","write","seek","close","other"};

uint64_t Rng::logu(uint64_t lo,uint64_t hi){ double a=log((double)lo),b=log((double)hi+1); uint64_t v=(uint64_t)exp(a+(b-a)*uni()); if(v<lo)v=lo; if(v>hi)v=hi; return v; }

Shared* sh; Disk* disk; unsigned char* blobs;
thread_local Ctx ctx;
std::string only_class;
bool mem_fatal=false;
uint64_t alloc_index;
uint64_t g_step, kill_step;
static uint64_t g_next=~0ull;   // next step needing slow path
static uint64_t g_budget=~0ull;

void logev(uint64_t v){ sh->loghash=mix64(sh->loghash^v); }
void probe(int id){ sh->probes[id&63]++; }

static void* map_shared(size_t n){ void*p=mmap(0,n,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(p==MAP_FAILED){ perror("mmap"); _exit(97);} return p; }

void die(int outcome){ sh->steps=g_step; if(outcome==O_KILLED) sh->killed=1; syscall(SYS_exit_group,outcome==O_VIOL?42:outcome==O_KILLED?43:44); __builtin_unreachable(); }

void violation(const char*cls,const char*fmt,...){
  if(sh->viol) die(O_VIOL);
  bool prev=ctx.in_sut; ctx.in_sut=false;
  sh->viol=1; snprintf(sh->vclass,sizeof sh->vclass,"%s",cls);
  va_list ap; va_start(ap,fmt); vsnprintf(sh->vmsg,sizeof sh->vmsg,fmt,ap); va_end(ap);
  for(char*c=sh->vmsg;*c;c++) if(*c=='\n') *c=' ';
  logev(hash_str(sh->vclass)); (void)prev;
  die(O_VIOL);
}

BlobRef blob_put(const void*p,size_t n){ BlobRef r; r.off=sh->blob_used; r.len=n; if(r.off+n+64>BLOBCAP){ fprintf(stderr,"blob store full\n"); _exit(96);} memcpy(blobs+r.off,p,n); sh->blob_used+=(n+63)&~63ull; return r; }

// ================================================================ heap
static const uintptr_t ABASE=0x100000000000ull; static const size_t ASIZE=3ull<<30; static const uintptr_t SHB=0x120000000000ull;
static unsigned char* shadow=(unsigned char*)SHB;
static std::map<uintptr_t,Block>* blocks; // keyed by address (live and quarantined)
static std::map<size_t,std::vector<uintptr_t>>* freelists;
static uintptr_t bump; static uint64_t bseq; static Env henv; static Rng* hrng; static size_t live_n, live_b;
static const size_t GAP=64;
bool in_arena(const void*p){ return (uintptr_t)p-ABASE<ASIZE; }
static void poison(uintptr_t a,size_t n){ memset(shadow+((a-ABASE)>>3),0xFF,(n+7)>>3); }
static void unpoison(uintptr_t a,size_t n){ memset(shadow+((a-ABASE)>>3),0,n>>3); if(n&7) shadow[(a-ABASE+n)>>3]=n&7; }
void heap_reset(const Env&e){ henv=e; if(!blocks){ blocks=new std::map<uintptr_t,Block>; freelists=new std::map<size_t,std::vector<uintptr_t>>; }
  blocks->clear(); freelists->clear(); delete hrng; hrng=new Rng(e.seed^0x4eaf); 
  madvise((void*)ABASE,ASIZE,MADV_DONTNEED); madvise((void*)SHB,ASIZE>>3,MADV_DONTNEED);
  bump=ABASE+4096+((e.place&1)?16*hrng->below(4096):0); bseq=0; live_n=live_b=0; }
// shadow value 0 means "never poisoned" right after reset: arena beyond bump is checked against bump instead
static inline bool addressable(uintptr_t a,size_t n){ // n<=16 fast
  uintptr_t off=a-ABASE; 
  if(a+n>bump) return false;
  unsigned char s=shadow[off>>3]; if(s){ if(s==0xFF) return false; if((off&7)+n>s && (off&7)+n<=8) return false; if((off&7)>=s) return false; }
  uintptr_t e=off+n-1; if((e>>3)!=(off>>3)){ if(s) return false; for(uintptr_t g=(off>>3)+1; g<(e>>3); g++) if(shadow[g]) return false; unsigned char t=shadow[e>>3]; if(t&&(t==0xFF||(e&7)>=t)) return false; }
  return true; }
bool heap_check(const void*p,size_t n){ if(n==0) return true; uintptr_t a=(uintptr_t)p; if(a-ABASE>=ASIZE) return true; return addressable(a,n); }
static void fill(void*p,size_t n,bool fresh){
  switch(henv.fill){ case 0: if(!fresh) memset(p,0,n); break; case 1: memset(p,0xA5,n); break; case 2: memset(p,0xFF,n); break;
    case 3: { uint64_t s=hrng->next(); unsigned char*c=(unsigned char*)p; size_t i=0; for(;i+8<=n;i+=8){ s=s*6364136223846793005ull+1442695040888963407ull; uint64_t v=s^(s>>29); memcpy(c+i,&v,8);} for(;i<n;i++) c[i]=(unsigned char)(s>>(8*(i&7))); break; }
    case 4: if(fresh){ // plausible stale data
      uint64_t s=hrng->next(); for(size_t i=0;i+4<=n;i+=4){ s=s*6364136223846793005ull+1; float f=(float)((int64_t)(s>>40)-8388608)/65536.f; memcpy((char*)p+i,&f,4);} } break;
    case 5: for(size_t i=0;i+4<=n;i+=4){ uint32_t v=(uint32_t)(1+(i>>2)%7); memcpy((char*)p+i,&v,4);} break; } }
void* heap_alloc(size_t n,int owner){
  size_t cls=(n+15)&~(size_t)15; if(cls==0) cls=16; uintptr_t a=0; bool fresh=true;
  if(henv.place>=2){ auto it=freelists->find(cls); if(it!=freelists->end()&&!it->second.empty()){ auto&v=it->second; size_t k=henv.place==2? v.size()-1 : hrng->below(v.size()); a=v[k]; v.erase(v.begin()+k); fresh=false; } }
  if(!a){ size_t gap=GAP+((henv.place&1)?16*hrng->below(32):0); uintptr_t start=bump+gap; size_t tot=gap+cls+GAP;
    if(bump+tot>ABASE+ASIZE) return nullptr;
    poison(bump,tot); a=start; bump+=tot; }
  unpoison(a,n); fill((void*)a,n,fresh);
  Block b; b.size=n; b.owner=owner; b.op=ctx.op; b.live=true; b.protect=false; b.seq=++bseq; (*blocks)[a]=b; live_n++; live_b+=n; if(live_b>sh->maxlive) sh->maxlive=live_b; return (void*)a; }
Block* heap_block(void*p){ auto it=blocks->find((uintptr_t)p); return it==blocks->end()?nullptr:&it->second; }
Block* heap_find(const void*p,uintptr_t*base){ uintptr_t a=(uintptr_t)p; auto it=blocks->upper_bound(a); if(it==blocks->begin()) return nullptr; --it; if(base)*base=it->first; return &it->second; }
void heap_protect(void*p,bool on){ if(Block*b=heap_block(p)) b->protect=on; }
size_t heap_live_blocks(){ return live_n; } size_t heap_live_bytes(){ return live_b; } uint64_t heap_seq(){ return bseq; }
std::string heap_describe_live(uint64_t after){ std::ostringstream o; int k=0; for(auto&kv:*blocks) if(kv.second.live&&kv.second.seq>after&&kv.second.owner!=-2){ if(k++<6) o<<"["<<kv.second.size<<" bytes from op "<<kv.second.op<<"] "; } if(k>6) o<<"... "<<k<<" blocks"; return o.str(); }
void heap_release(void*p){
  if(!p) return; Block*b=heap_block(p);
  if(!b){ if(mem_fatal){ uintptr_t base=0; Block*q=heap_find(p,&base); violation("bad-free","release of %p which is not the start of a block%s",p,q&&(uintptr_t)p<base+q->size?" (inside a block)":""); } return; }
  if(!b->live){ if(mem_fatal) violation("double-free","block of %zu bytes (from op %d) released twice, second time in op %d",b->size,b->op,ctx.op); return; }
  if(b->protect){ if(mem_fatal) violation("frees-caller-memory","op %d releases a block of %zu bytes the caller still owns",ctx.op,b->size); return; }
  b->live=false; live_n--; live_b-=b->size; if(ctx.in_sut) sh->frees++;
  poison((uintptr_t)p,b->size?b->size:1);
  if(henv.place>=2&&henv.fill!=4){ /* keep contents: stale */ }
  if(henv.place<2) memset(p,0xDD,b->size);
  if(henv.place>=2){ size_t cls=(b->size+15)&~(size_t)15; if(!cls) cls=16; (*freelists)[cls].push_back((uintptr_t)p); } }

static std::vector<Fault>* faults; static std::vector<int64_t>* fcount; // per-fault trigger counters
static bool alloc_should_fail(size_t n){
  bool f=false; alloc_index++;
  if(faults) for(auto&x:*faults){ if(x.op>=0&&x.op!=ctx.op) continue;
    if(x.kind==F_ALLOC_ONCE&&(int64_t)alloc_index==x.n) { f=true; sh->faultfired[x.kind]++; }
    else if(x.kind==F_ALLOC_FROM&&(int64_t)alloc_index>=x.n) { f=true; sh->faultfired[x.kind]++; }
    else if(x.kind==F_ALLOC_SIZE&&(int64_t)n>=x.n) { f=true; sh->faultfired[x.kind]++; } }
  if(f){ sh->allocfail++; logev(0xA110C^alloc_index); }
  return f; }
static void* sut_alloc(size_t n){ sh->allocs++; if(alloc_should_fail(n)){ errno=ENOMEM; return nullptr; } if(n>(1ull<<30)){ errno=ENOMEM; return nullptr; }
  bool p=ctx.in_sut; ctx.in_sut=false; int op=ctx.op; void*r=heap_alloc(n,op<0?0:op); ctx.in_sut=p; if(!r) errno=ENOMEM; return r; }
static void sut_free(void*p){ bool pr=ctx.in_sut; ctx.in_sut=false; uint64_t fr=sh->frees; heap_release(p); if(pr&&sh->frees==fr) sh->frees++; ctx.in_sut=pr; }

// ================================================================ scheduler
struct Th { sem_t sem; bool done=false; std::function<void()>*fn; pthread_t pt; int id; };
static std::vector<Th*>* ths; static int cur=-1; static SchedCfg sc; static Rng* srng; static size_t sc_i; static bool multi=false; static sem_t main_sem;
static bool stalled(int t){ return t==sc.stall_t && g_step>=sc.stall_at; }
static void switch_to(int t,bool record){
  if(t==cur) return; sh->switches++; sh->schedhash=mix64(sh->schedhash^(g_step*31+t)); logev(0x5C4ED^(g_step<<8)^t);
  if(record&&sh->nsched<20000){ sh->sched[sh->nsched].step=g_step; sh->sched[sh->nsched].t=t; sh->nsched++; }
  int me=cur; cur=t; sem_post(&(*ths)[t]->sem); if(me>=0&&!(*ths)[me]->done) while(sem_wait(&(*ths)[me]->sem)!=0){} }
static int next_cyc(int from){ int n=ths->size(); for(int i=1;i<=n;i++){ int t=(from+i)%n; if(!(*ths)[t]->done&&!stalled(t)) return t; } for(int i=1;i<=n;i++){ int t=(from+i)%n; if(!(*ths)[t]->done) return t; } return -1; }
static void plan_next(){ 
  uint64_t nx=~0ull;
  if(multi){ if(sc.replay) nx= sc_i<sc.list.size()? sc.list[sc_i].first : ~0ull; else nx= sh->switches<sc.maxsw? g_step+srng->logu(sc.lo,sc.hi) : ~0ull; }
  if(kill_step&&kill_step<nx&&g_step<kill_step) nx=kill_step; if(kill_step&&g_step>=kill_step) nx=g_step+1;
  if(g_budget<nx) nx=g_budget; if(nx<=g_step) nx=g_step+1; g_next=nx; }
static void slow_step(){
  bool p=ctx.in_sut; ctx.in_sut=false;
  if(kill_step&&g_step>=kill_step){ sh->faultfired[F_KILL_STEP]++; logev(0xDEAD^g_step); die(O_KILLED); }
  if(g_step>=g_budget){ violation("no-progress","operation %d did not finish within %llu memory accesses",ctx.op,(unsigned long long)g_budget); }
  if(multi){ int t=-1; bool due=false;
    if(sc.replay){ while(sc_i<sc.list.size()&&sc.list[sc_i].first<=g_step){ t=sc.list[sc_i].second; sc_i++; due=true; } }
    else { int n=ths->size(); std::vector<int> r; for(int i=0;i<n;i++) if(i!=cur&&!(*ths)[i]->done&&!stalled(i)) r.push_back(i); if(!r.empty()){ t=r[srng->below(r.size())]; due=true; } }
    int me=cur;
    if(due&&t>=0&&t<(int)ths->size()&&!(*ths)[t]->done&&t!=cur){ plan_next(); switch_to(t,true); (void)me; } }
  plan_next(); ctx.in_sut=p; }
static inline void hot_access(){ sh->hot++; if(multi&&!sc.replay&&sh->switches<sc.maxsw&&srng->chance(sc.hotp)) slow_step(); }
// forced yield (blocked on a lock)
static uint64_t forced_at=~0ull, forced_n=0;
static void forced_yield(){ bool p=ctx.in_sut; ctx.in_sut=false; if(forced_at==g_step) { if(++forced_n>200000) violation("deadlock","no caller can proceed: every runnable thread waits for a lock (op %d)",ctx.op); } else { forced_at=g_step; forced_n=0; }
  int t=next_cyc(cur); if(t>=0&&t!=cur) switch_to(t,false); else violation("deadlock","op %d waits for a lock nobody can release",ctx.op); ctx.in_sut=p; }
static void* th_main(void*a){ Th*t=(Th*)a; while(sem_wait(&t->sem)!=0){} ctx=Ctx(); ctx.tid=t->id; (*t->fn)(); ctx.in_sut=false; t->done=true; int n=next_cyc(t->id);
  if(n<0){ sem_post(&main_sem); } else switch_to(n,false); return nullptr; }
void sched_run(std::vector<std::function<void()>>&fns,const SchedCfg&c){
  sc=c; delete srng; srng=new Rng(c.seed^0x5ced); sc_i=0; ths=new std::vector<Th*>; sem_init(&main_sem,0,0); if(c.budget) g_budget=g_step+c.budget;
  for(size_t i=0;i<fns.size();i++){ Th*t=new Th; t->id=i; t->fn=&fns[i]; sem_init(&t->sem,0,0); ths->push_back(t); }
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at,16u<<20);
  for(auto t:*ths) if(pthread_create(&t->pt,&at,th_main,t)!=0){ fprintf(stderr,"pthread_create failed\n"); _exit(95); }
  multi=fns.size()>1; int first=c.first%(int)fns.size(); cur=-1; plan_next(); cur=first; logev(0xF125+first); sem_post(&(*ths)[first]->sem);
  while(sem_wait(&main_sem)!=0){} multi=false; for(auto t:*ths) pthread_join(t->pt,nullptr); plan_next(); }
bool charge_bytes=false; void step_budget(uint64_t n){ g_budget=n?g_step+n:~0ull; plan_next(); }

// ================================================================ memory-access hook
static void bad_access(const void*p,size_t n,bool w){
  ctx.in_sut=false; uintptr_t base=0; Block*b=heap_find(p,&base); uintptr_t a=(uintptr_t)p;
  if(!b) violation(w?"oob-write":"oob-read","%s of %zu bytes at unallocated heap address in op %d",w?"write":"read",n,ctx.op);
  if(!b->live&&a<base+b->size) violation("use-after-release","%s of %zu bytes inside a released block of %zu bytes (offset %zu) in op %d",w?"write":"read",n,b->size,(size_t)(a-base),ctx.op);
  violation(w?"oob-write":"oob-read","%s of %zu bytes %zu bytes past the start of a block of %zu bytes%s in op %d",w?"write":"read",n,(size_t)(a-base),b->size,b->owner==-2?" owned by the caller":"",ctx.op); }
static inline __attribute__((always_inline)) void access_hook(const void*p,size_t n,bool w){
  if(__builtin_expect(!ctx.in_sut,0)) return;
  uintptr_t a=(uintptr_t)p;
  if(a-ABASE<ASIZE){ if(__builtin_expect(mem_fatal,0)&&!addressable(a,n)) bad_access(p,n,w); }
  ++g_step;
  if(__builtin_expect(a>=(uintptr_t)__data_start&&a<(uintptr_t)_end,0)) hot_access();
  if(__builtin_expect(g_step>=g_next,0)) slow_step(); }
static void range_hook(const void*p,size_t n,bool w){ if(!ctx.in_sut||n==0) return; uintptr_t a=(uintptr_t)p; ++g_step; if(charge_bytes) g_step+=n>>4; if(a-ABASE<ASIZE){ if(mem_fatal&&!addressable(a,n)) bad_access(p,n,w); } else if(a>=(uintptr_t)__data_start&&a<(uintptr_t)_end) hot_access(); if(g_step>=g_next) slow_step(); }
} // namespace sim
using namespace sim;

#define ACC(N) extern "C" void __tsan_read##N(void*p){ access_hook(p,N,false);} extern "C" void __tsan_write##N(void*p){ access_hook(p,N,true);} \
 extern "C" void __tsan_unaligned_read##N(void*p){ access_hook(p,N,false);} extern "C" void __tsan_unaligned_write##N(void*p){ access_hook(p,N,true);} \
 extern "C" void __tsan_volatile_read##N(void*p){ access_hook(p,N,false);} extern "C" void __tsan_volatile_write##N(void*p){ access_hook(p,N,true);} \
 extern "C" void __tsan_read##N##_pc(void*p,void*){ access_hook(p,N,false);} extern "C" void __tsan_write##N##_pc(void*p,void*){ access_hook(p,N,true);}
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
extern "C" {
void __tsan_init(){} void __tsan_func_entry(void*){} void __tsan_func_exit(void*){}
void __tsan_read_range(void*p,size_t n){ range_hook(p,n,false);} void __tsan_write_range(void*p,size_t n){ range_hook(p,n,true);} 
void __tsan_vptr_update(void**p,void*v){ (void)v; access_hook(p,8,true);} void __tsan_vptr_read(void**p){ access_hook(p,8,false);} 
}
// array indexing beyond the declared bounds of an array (global, stack or member)
extern "C" void __ubsan_handle_out_of_bounds(void*,void*){ if(mem_fatal&&ctx.in_sut) violation("index-out-of-bounds","index outside the declared bounds of an array in op %d",ctx.op); }
extern "C" void __ubsan_handle_out_of_bounds_abort(void*d,void*i){ if(ctx.in_sut) violation("index-out-of-bounds","index outside the declared bounds of an array in op %d",ctx.op); (void)d;(void)i; abort(); }
#define ATOM(B,T) \
extern "C" T __tsan_atomic##B##_load(const volatile T*a,int){ access_hook((void*)a,sizeof(T),false); hot_access(); return __atomic_load_n(a,__ATOMIC_SEQ_CST);} \
extern "C" void __tsan_atomic##B##_store(volatile T*a,T v,int){ access_hook((void*)a,sizeof(T),true); __atomic_store_n(a,v,__ATOMIC_SEQ_CST); hot_access();} \
extern "C" T __tsan_atomic##B##_exchange(volatile T*a,T v,int){ access_hook((void*)a,sizeof(T),true); return __atomic_exchange_n(a,v,__ATOMIC_SEQ_CST);} \
extern "C" T __tsan_atomic##B##_fetch_add(volatile T*a,T v,int){ access_hook((void*)a,sizeof(T),true); return __atomic_fetch_add(a,v,__ATOMIC_SEQ_CST);} \
extern "C" T __tsan_atomic##B##_fetch_sub(volatile T*a,T v,int){ access_hook((void*)a,sizeof(T),true); return __atomic_fetch_sub(a,v,__ATOMIC_SEQ_CST);} \
extern "C" T __tsan_atomic##B##_fetch_and(volatile T*a,T v,int){ access_hook((void*)a,sizeof(T),true); return __atomic_fetch_and(a,v,__ATOMIC_SEQ_CST);} \
extern "C" T __tsan_atomic##B##_fetch_or(volatile T*a,T v,int){ access_hook((void*)a,sizeof(T),true); return __atomic_fetch_or(a,v,__ATOMIC_SEQ_CST);} \
extern "C" T __tsan_atomic##B##_fetch_xor(volatile T*a,T v,int){ access_hook((void*)a,sizeof(T),true); return __atomic_fetch_xor(a,v,__ATOMIC_SEQ_CST);} \
extern "C" T __tsan_atomic##B##_fetch_nand(volatile T*a,T v,int){ access_hook((void*)a,sizeof(T),true); return __atomic_fetch_nand(a,v,__ATOMIC_SEQ_CST);} \
extern "C" int __tsan_atomic##B##_compare_exchange_strong(volatile T*a,T*e,T v,int,int){ access_hook((void*)a,sizeof(T),true); hot_access(); return __atomic_compare_exchange_n(a,e,v,false,__ATOMIC_SEQ_CST,__ATOMIC_SEQ_CST);} \
extern "C" int __tsan_atomic##B##_compare_exchange_weak(volatile T*a,T*e,T v,int,int){ access_hook((void*)a,sizeof(T),true); hot_access(); return __atomic_compare_exchange_n(a,e,v,false,__ATOMIC_SEQ_CST,__ATOMIC_SEQ_CST);} \
extern "C" T __tsan_atomic##B##_compare_exchange_val(volatile T*a,T e,T v,int,int){ access_hook((void*)a,sizeof(T),true); __atomic_compare_exchange_n(a,&e,v,false,__ATOMIC_SEQ_CST,__ATOMIC_SEQ_CST); return e;}
ATOM(8,unsigned char) ATOM(16,unsigned short) ATOM(32,unsigned int) ATOM(64,unsigned long)
extern "C" void __tsan_atomic_thread_fence(int){ __atomic_thread_fence(__ATOMIC_SEQ_CST);} extern "C" void __tsan_atomic_signal_fence(int){}

// ================================================================ allocator seam (process wide; active only inside operations)
extern "C" {
void* malloc(size_t n){ if(ctx.in_sut) return sut_alloc(n); return __libc_malloc(n); }
void free(void*p){ if(!p) return; if(in_arena(p)) { sut_free(p); return; } __libc_free(p); }
void* calloc(size_t a,size_t b){ if(ctx.in_sut){ if(b&&a>(size_t)-1/b){ errno=ENOMEM; return nullptr; } void*p=sut_alloc(a*b); if(p) memset(p,0,a*b); return p; } return __libc_calloc(a,b); }
void* realloc(void*p,size_t n){ if(p&&in_arena(p)){ bool pr=ctx.in_sut; Block*b=heap_block(p); void*q=nullptr; if(n){ q=sut_alloc(n); if(!q) return nullptr; if(b&&b->live){ size_t m=b->size<n?b->size:n; if(charge_bytes&&pr) g_step+=m>>3; memcpy(q,p,m); } } ctx.in_sut=pr; sut_free(p); return q; }
  if(ctx.in_sut){ if(!p) return sut_alloc(n); /* block from outside */ } return __libc_realloc(p,n); }
int posix_memalign(void**o,size_t al,size_t n){ if(ctx.in_sut){ void*p=sut_alloc(n); if(!p) return ENOMEM; *o=p; return 0; } void*p=__libc_memalign(al,n); if(!p) return ENOMEM; *o=p; return 0; }
void* aligned_alloc(size_t al,size_t n){ if(ctx.in_sut) return sut_alloc(n); return __libc_memalign(al,n); }
void* memalign(size_t al,size_t n){ if(ctx.in_sut) return sut_alloc(n); return __libc_memalign(al,n); }
}
static void* op_new(size_t n){ void*p=malloc(n?n:1); if(!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n){ return op_new(n);} void* operator new[](size_t n){ return op_new(n);} 
void* operator new(size_t n,const std::nothrow_t&) noexcept { return malloc(n?n:1);} void* operator new[](size_t n,const std::nothrow_t&) noexcept { return malloc(n?n:1);} 
void operator delete(void*p) noexcept { free(p);} void operator delete[](void*p) noexcept { free(p);} void operator delete(void*p,size_t) noexcept { free(p);} void operator delete[](void*p,size_t) noexcept { free(p);} 

// ================================================================ redirected from library objects only (objcopy --redefine-sym)
extern "C" {
void* simr_memcpy(void*d,const void*s,size_t n){ range_hook(s,n,false); range_hook(d,n,true); return memcpy(d,s,n);} 
void* simr_memmove(void*d,const void*s,size_t n){ range_hook(s,n,false); range_hook(d,n,true); return memmove(d,s,n);} 
void* simr_memset(void*d,int c,size_t n){ range_hook(d,n,true); return memset(d,c,n);} 
int simr_memcmp(const void*a,const void*b,size_t n){ range_hook(a,n,false); range_hook(b,n,false); return memcmp(a,b,n);} 
// plain library only: large clears give the pages back instead of touching them (same contents, far cheaper for tiny inputs)
void* simr_pmemset(void*p,int c,size_t n){ if(c==0&&n>=(1u<<18)&&!in_arena(p)){ uintptr_t a=(uintptr_t)p,b=a+n,x=(a+4095)&~(uintptr_t)4095,y=b&~(uintptr_t)4095; memset(p,0,x-a); memset((void*)y,0,b-y); if(madvise((void*)x,y-x,MADV_DONTNEED)!=0) memset((void*)x,0,y-x); return p; } return memset(p,c,n); }
void simr_exit(int code){ ctx.in_sut=false; fflush(stdout); sh->exited=1; sh->exitcode=code; logev(0xE817+code); sh->steps=g_step; syscall(SYS_exit_group,45); __builtin_unreachable(); }
int simr_rand(){ return rand(); }
}
// ZSTD entry points: the caller-supplied ranges are checked, the real code runs as one step. The library's own
// code is not instrumented, so a context two callers use at once is found by marking it busy over scheduling points
// placed before and after the real call: overlapping use of one context is undefined behaviour in zstd.
static struct { void*ctx; int tid; } zbusy[64];
namespace { struct ZUse { void*c; int slot=-1;
  ZUse(void*ctx_,const char*what):c(ctx_){ if(!ctx.in_sut||!multi||!c){ c=nullptr; return; }
    for(int i=0;i<64;i++) if(zbusy[i].ctx==c&&zbusy[i].tid!=ctx.tid) violation("zstd-context-shared","%s in op %d uses a zstd context another caller is in the middle of using",what,ctx.op);
    for(int i=0;i<64;i++) if(!zbusy[i].ctx){ slot=i; zbusy[i].ctx=c; zbusy[i].tid=ctx.tid; break; }
    points(); }
  void points(){ for(int i=0;i<4;i++){ ++g_step; hot_access(); if(g_step>=g_next) slow_step(); } }
  ~ZUse(){ if(!c) return; points(); if(slot>=0) zbusy[slot].ctx=nullptr; } }; }
extern "C" {
size_t simr_ZSTD_compress(void*d,size_t dc,const void*s,size_t sn,int l){ range_hook(s,sn,false); size_t r=ZSTD_compress(d,dc,s,sn,l); if(r<=dc) range_hook(d,r,true); return r; }
size_t simr_ZSTD_decompress(void*d,size_t dc,const void*s,size_t sn){ range_hook(s,sn,false); size_t r=ZSTD_decompress(d,dc,s,sn); if(r<=dc) range_hook(d,r,true); return r; }
size_t simr_ZSTD_compressCCtx(ZSTD_CCtx*c,void*d,size_t dc,const void*s,size_t sn,int l){ range_hook(s,sn,false); ZUse u(c,"ZSTD_compressCCtx"); size_t r=ZSTD_compressCCtx(c,d,dc,s,sn,l); if(r<=dc) range_hook(d,r,true); return r; }
size_t simr_ZSTD_decompressDCtx(ZSTD_DCtx*c,void*d,size_t dc,const void*s,size_t sn){ range_hook(s,sn,false); ZUse u(c,"ZSTD_decompressDCtx"); size_t r=ZSTD_decompressDCtx(c,d,dc,s,sn); if(r<=dc) range_hook(d,r,true); return r; }
size_t simr_ZSTD_compress2(ZSTD_CCtx*c,void*d,size_t dc,const void*s,size_t sn){ range_hook(s,sn,false); ZUse u(c,"ZSTD_compress2"); size_t r=ZSTD_compress2(c,d,dc,s,sn); if(r<=dc) range_hook(d,r,true); return r; }
size_t simr_ZSTD_CCtx_setParameter(ZSTD_CCtx*c,ZSTD_cParameter p,int v){ ZUse u(c,"ZSTD_CCtx_setParameter"); return ZSTD_CCtx_setParameter(c,p,v); }
size_t simr_ZSTD_CCtx_setPledgedSrcSize(ZSTD_CCtx*c,unsigned long long n){ ZUse u(c,"ZSTD_CCtx_setPledgedSrcSize"); return ZSTD_CCtx_setPledgedSrcSize(c,n); }
size_t simr_ZSTD_CCtx_reset(ZSTD_CCtx*c,ZSTD_ResetDirective r){ ZUse u(c,"ZSTD_CCtx_reset"); return ZSTD_CCtx_reset(c,r); }
size_t simr_ZSTD_DCtx_setParameter(ZSTD_DCtx*c,ZSTD_dParameter p,int v){ ZUse u(c,"ZSTD_DCtx_setParameter"); return ZSTD_DCtx_setParameter(c,p,v); }
size_t simr_ZSTD_DCtx_reset(ZSTD_DCtx*c,ZSTD_ResetDirective r){ ZUse u(c,"ZSTD_DCtx_reset"); return ZSTD_DCtx_reset(c,r); }
static void zin(const ZSTD_inBuffer*i){ if(i->pos<=i->size) range_hook((const char*)i->src+i->pos,i->size-i->pos,false); }
static void zout(const ZSTD_outBuffer*o,size_t from){ if(o->pos>=from&&o->pos<=o->size) range_hook((char*)o->dst+from,o->pos-from,true); }
size_t simr_ZSTD_compressStream2(ZSTD_CCtx*c,ZSTD_outBuffer*o,ZSTD_inBuffer*i,ZSTD_EndDirective e){ zin(i); ZUse u(c,"ZSTD_compressStream2"); size_t f=o->pos,r=ZSTD_compressStream2(c,o,i,e); zout(o,f); return r; }
size_t simr_ZSTD_compressStream(ZSTD_CStream*c,ZSTD_outBuffer*o,ZSTD_inBuffer*i){ zin(i); ZUse u(c,"ZSTD_compressStream"); size_t f=o->pos,r=ZSTD_compressStream(c,o,i); zout(o,f); return r; }
size_t simr_ZSTD_flushStream(ZSTD_CStream*c,ZSTD_outBuffer*o){ ZUse u(c,"ZSTD_flushStream"); size_t f=o->pos,r=ZSTD_flushStream(c,o); zout(o,f); return r; }
size_t simr_ZSTD_endStream(ZSTD_CStream*c,ZSTD_outBuffer*o){ ZUse u(c,"ZSTD_endStream"); size_t f=o->pos,r=ZSTD_endStream(c,o); zout(o,f); return r; }
size_t simr_ZSTD_initCStream(ZSTD_CStream*c,int l){ ZUse u(c,"ZSTD_initCStream"); return ZSTD_initCStream(c,l); }
size_t simr_ZSTD_initDStream(ZSTD_DStream*c){ ZUse u(c,"ZSTD_initDStream"); return ZSTD_initDStream(c); }
size_t simr_ZSTD_decompressStream(ZSTD_DStream*c,ZSTD_outBuffer*o,ZSTD_inBuffer*i){ zin(i); ZUse u(c,"ZSTD_decompressStream"); size_t f=o->pos,r=ZSTD_decompressStream(c,o,i); zout(o,f); return r; }
size_t simr_ZSTD_freeCCtx(ZSTD_CCtx*c){ ZUse u(c,"ZSTD_freeCCtx"); return ZSTD_freeCCtx(c); }
size_t simr_ZSTD_freeDCtx(ZSTD_DCtx*c){ ZUse u(c,"ZSTD_freeDCtx"); return ZSTD_freeDCtx(c); }
size_t simr_ZSTD_freeCStream(ZSTD_CStream*c){ ZUse u(c,"ZSTD_freeCStream"); return ZSTD_freeCStream(c); }
size_t simr_ZSTD_freeDStream(ZSTD_DStream*c){ ZUse u(c,"ZSTD_freeDStream"); return ZSTD_freeDStream(c); }
}

// ================================================================ locks: a blocked caller yields to the simulator
template<class F> static F real(const char*n){ return (F)dlsym(RTLD_NEXT,n); }
extern "C" {
int pthread_mutex_lock(pthread_mutex_t*m){ static int(*r)(pthread_mutex_t*)=nullptr; if(!r) r=real<int(*)(pthread_mutex_t*)>("pthread_mutex_lock"); if(ctx.in_sut&&multi){ static int(*tr)(pthread_mutex_t*)=nullptr; if(!tr) tr=real<int(*)(pthread_mutex_t*)>("pthread_mutex_trylock"); hot_access(); int e; while((e=tr(m))==EBUSY) forced_yield(); return e; } return r(m); }
int pthread_mutex_unlock(pthread_mutex_t*m){ static int(*r)(pthread_mutex_t*)=nullptr; if(!r) r=real<int(*)(pthread_mutex_t*)>("pthread_mutex_unlock"); int e=r(m); if(ctx.in_sut&&multi) hot_access(); return e; }
int pthread_once(pthread_once_t*o,void(*f)(void)){ static int(*r)(pthread_once_t*,void(*)(void))=nullptr; if(!r) r=real<int(*)(pthread_once_t*,void(*)(void))>("pthread_once"); if(ctx.in_sut&&multi){ volatile int*v=(volatile int*)o; if(*v==2) return 0; while(*v==0x5151) forced_yield(); if(*v==2) return 0; *v=0x5151; f(); *v=2; return 0; } return r(o,f); }
int __cxa_guard_acquire(uint64_t*g){ char*c=(char*)g; if(c[0]) return 0; while(c[1]==1){ if(ctx.in_sut&&multi) forced_yield(); else break; } if(c[0]) return 0; c[1]=1; return 1; }
void __cxa_guard_release(uint64_t*g){ char*c=(char*)g; c[0]=1; c[1]=0; }
void __cxa_guard_abort(uint64_t*g){ ((char*)g)[1]=0; }
}

// ================================================================ simulated clock and C random state
static Rng crng(1); static uint64_t clk; static uint32_t clkmode; static Rng clkrng(1);
namespace sim {
static const uint64_t START_NS=0;
uint64_t now_ns(){ return clk; }
static uint64_t tick(){ if(clkmode==3) return clk; uint64_t d=1000+clkrng.below(2000000); sh->simns+=d; clk+=d;
  if(clkmode==1&&clkrng.chance(0.5)){ uint64_t j=clkrng.logu(1000000ull,4000000000000000ull); clk+=j; sh->simns+=j; sh->faultfired[F_CLOCKJUMP]++; }
  if(clkmode==2&&clkrng.chance(0.6)){ uint64_t j=clkrng.logu(1000000ull,4000000000000000ull); clk=clk>j?clk-j:0; sh->faultfired[F_CLOCKJUMP]++; }
  return clk; }
void env_begin(const Env&e){ heap_reset(e); clk=e.clock0; clkmode=e.clockmode; clkrng=Rng(e.seed^0xC10C); crng=Rng(e.crand); alloc_index=0; g_step=0; g_budget=~0ull; kill_step=0; plan_next(); errno=0; }
void __attribute__((noinline)) paint_stack(uint32_t pat){ if(!pat) return; volatile unsigned char buf[192*1024]; uint64_t s=pat*0x9E3779B97F4A7C15ull; if(pat==1){ for(size_t i=0;i<sizeof buf;i++) buf[i]=0xFF; } else for(size_t i=0;i<sizeof buf;i++){ s=s*6364136223846793005ull+1442695040888963407ull; buf[i]=(unsigned char)(s>>56);} }
}
extern "C" {
int clock_gettime(clockid_t id,struct timespec*t){ if(ctx.in_sut){ uint64_t n=tick(); t->tv_sec=n/1000000000ull; t->tv_nsec=n%1000000000ull; return 0; } return syscall(SYS_clock_gettime,id,t); }
int gettimeofday(struct timeval*t,void*z){ (void)z; if(ctx.in_sut){ uint64_t n=tick(); t->tv_sec=n/1000000000ull; t->tv_usec=(n%1000000000ull)/1000; return 0; } struct timespec s; syscall(SYS_clock_gettime,CLOCK_REALTIME,&s); t->tv_sec=s.tv_sec; t->tv_usec=s.tv_nsec/1000; return 0; }
time_t time(time_t*o){ time_t v; if(ctx.in_sut) v=tick()/1000000000ull; else { struct timespec s; syscall(SYS_clock_gettime,CLOCK_REALTIME,&s); v=s.tv_sec; } if(o)*o=v; return v; }
clock_t clock(void){ if(ctx.in_sut) return (clock_t)(tick()/1000); struct timespec s; syscall(SYS_clock_gettime,CLOCK_PROCESS_CPUTIME_ID,&s); return s.tv_sec*1000000+s.tv_nsec/1000; }
int rand(void){ return (int)(crng.next()&0x7fffffff); } void srand(unsigned s){ crng=Rng(s);} long random(void){ return (long)(crng.next()&0x7fffffff);} void srandom(unsigned s){ crng=Rng(s);} double drand48(void){ return crng.uni(); } void srand48(long s){ crng=Rng(s);} 
}

// ================================================================ simulated disk
namespace sim {
struct Fd { bool used=false; int file=-1; uint64_t pos=0; bool rd=false,wr=false,app=false; };
static Fd fds[1024];
int disk_find(const char*n){ for(int i=0;i<MAXFILES;i++) if(disk->f[i].used&&!strcmp(disk->f[i].name,n)) return i; return -1; }
int disk_create(const char*n){ int k=disk_find(n); if(k>=0) return k; for(int i=0;i<MAXFILES;i++) if(!disk->f[i].used){ memset(&disk->f[i],0,sizeof(SimFile)); disk->f[i].used=1; snprintf(disk->f[i].name,sizeof disk->f[i].name,"%s",n); return i; } return -1; }
void disk_reset(){ for(int i=0;i<MAXFILES;i++) disk->f[i].used=0; disk->capacity=~0ull; }
void disk_put(const char*n,const void*p,size_t s){ int k=disk_create(n); if(k<0||s>FILECAP){ fprintf(stderr,"sim disk full\n"); _exit(94);} memcpy(disk->data[k],p,s); disk->f[k].size=s; disk->f[k].synced=s; }
std::string disk_get(const char*n){ int k=disk_find(n); if(k<0) return std::string(); return std::string((char*)disk->data[k],disk->f[k].size); }
bool disk_has(const char*n){ return disk_find(n)>=0; }
static uint64_t disk_used(){ uint64_t t=0; for(int i=0;i<MAXFILES;i++) if(disk->f[i].used) t+=disk->f[i].size; return t; }
void faults_set(const std::vector<Fault>&f){ delete faults; delete fcount; faults=new std::vector<Fault>(f); fcount=new std::vector<int64_t>(f.size(),0); }
// returns the fault hitting this I/O call, if any
static uint64_t io_seq;
static Fault io_fault(int io){
  io_seq++; logev(0x10+io); Fault r; if(!faults) return r;
  for(size_t i=0;i<faults->size();i++){ Fault&x=(*faults)[i]; if(x.kind==F_KILL_IO){ if((x.op<0||x.op==ctx.op)&&(int64_t)++(*fcount)[i]==x.n){ sh->faultfired[F_KILL_IO]++; logev(0xDEAD10); if(io==IO_WRITE&&x.a){ r=x; continue; } ctx.in_sut=false; die(O_KILLED);} continue; }
    if(x.kind<F_SHORT||x.kind>F_STATFAIL) continue; if(x.op>=0&&x.op!=ctx.op) continue; if(x.io!=io) continue;
    int64_t c=++(*fcount)[i]; bool hit= x.n>0? c==x.n : (x.n<0? c>=-x.n : true); // n>0: exactly the nth; n<0: from the nth on; 0: every
    if(hit){ auto sev=[](int k){ return k==F_NONE?0:k==F_SHORT?1:k==F_EINTR?2:k==F_KILL_IO?9:3; }; if(sev(x.kind)>sev(r.kind)) r=x; } } // a refusal beats an interruption beats a short transfer
  if(r.kind!=F_NONE&&r.kind!=F_KILL_IO){ sh->faultfired[r.kind]++; logev(0xFA017^(r.kind<<16)^io_seq); }
  return r; }
static int do_open(const char*path,int flags){
  Fault f=io_fault(IO_OPEN); disk->opens++;
  switch(f.kind){ case F_ENOENT: errno=ENOENT; return -1; case F_EACCES: errno=EACCES; return -1; case F_EMFILE: errno=EMFILE; return -1; case F_EIO: errno=EIO; return -1; case F_ENOSPC: if(flags&O_CREAT){ errno=ENOSPC; return -1; } break; default: break; }
  int k=disk_find(path); int acc=flags&O_ACCMODE;
  if(k<0){ if(!(flags&O_CREAT)){ errno=ENOENT; return -1; } k=disk_create(path); if(k<0){ errno=ENOSPC; return -1; } }
  else if((flags&O_CREAT)&&(flags&O_EXCL)){ errno=EEXIST; return -1; }
  if(acc!=O_RDONLY&&(flags&O_TRUNC)) disk->f[k].size=0;
  int fd=syscall(SYS_openat,AT_FDCWD,"/dev/null",O_RDWR); if(fd<0||fd>=1024) return -1;
  fds[fd].used=true; fds[fd].file=k; fds[fd].pos=0; fds[fd].rd=acc!=O_WRONLY; fds[fd].wr=acc!=O_RDONLY; fds[fd].app=flags&O_APPEND; return fd; }
static ssize_t do_read(Fd&d,void*b,size_t n){
  Fault f=io_fault(IO_READ); disk->reads++; SimFile&s=disk->f[d.file];
  if(!d.rd){ errno=EBADF; return -1; }
  if(f.kind==F_EIO){ errno=EIO; return -1; } if(f.kind==F_EINTR){ errno=EINTR; return -1; }
  if(f.kind==F_SHRINK){ uint64_t to=(uint64_t)f.a; if(to<s.size) s.size=to; }
  size_t av= d.pos<s.size? s.size-d.pos:0; size_t m=n<av?n:av; if(f.kind==F_SHORT&&m>1){ size_t w=(size_t)(f.a>0?f.a:1); m=m>w?w:(m+1)/2; }
  if(m) memcpy(b,disk->data[d.file]+d.pos,m); d.pos+=m; disk->bytes_r+=m; logev(m); return m; }
static ssize_t do_write(Fd&d,const void*b,size_t n){
  Fault f=io_fault(IO_WRITE); disk->writes++; SimFile&s=disk->f[d.file];
  if(!d.wr){ errno=EBADF; return -1; }
  if(f.kind==F_EIO){ errno=EIO; return -1; } if(f.kind==F_EINTR){ errno=EINTR; return -1; }
  if(f.kind==F_ENOSPC){ errno=ENOSPC; return -1; }
  if(d.app) d.pos=s.size; size_t m=n; if(f.kind==F_SHORT&&m>1){ size_t w=(size_t)(f.a>0?f.a:1); m=m>w?w:(m+1)/2; } if(f.kind==F_KILL_IO){ m=(size_t)f.a<m?(size_t)f.a:m/2; }
  uint64_t used=disk_used(); uint64_t end=d.pos+m; uint64_t grow=end>s.size?end-s.size:0; if(disk->capacity!=~0ull&&used+grow>disk->capacity){ uint64_t room=disk->capacity>used?disk->capacity-used:0; uint64_t can=(s.size>d.pos?s.size-d.pos:0)+room; if(can==0){ sh->faultfired[F_ENOSPC]++; errno=ENOSPC; return -1; } if(m>can) m=can; }
  if(d.pos+m>FILECAP){ errno=EFBIG; return -1; }
  if(d.pos>s.size) memset(disk->data[d.file]+s.size,0,d.pos-s.size);
  memcpy(disk->data[d.file]+d.pos,b,m); d.pos+=m; if(d.pos>s.size) s.size=d.pos; s.writes++; disk->bytes_w+=m; logev(m);
  if(f.kind==F_KILL_IO){ ctx.in_sut=false; die(O_KILLED); }
  return m; }
static off_t do_seek(Fd&d,off_t o,int w){ Fault f=io_fault(IO_SEEK); if(f.kind==F_EIO||f.kind==F_SEEKFAIL){ errno=EIO; return -1; } SimFile&s=disk->f[d.file]; int64_t b= w==SEEK_SET?0: w==SEEK_CUR?(int64_t)d.pos:(int64_t)s.size; if(b+o<0){ errno=EINVAL; return -1; } d.pos=b+o; return d.pos; }
static int do_close_fault(){ Fault f=io_fault(IO_CLOSE); if(f.kind==F_CLOSEFAIL||f.kind==F_EIO){ errno=EIO; return -1; } if(f.kind==F_ENOSPC){ errno=ENOSPC; return -1; } if(f.kind==F_EINTR) return 0; return 0; }
static bool simfd(int fd){ return fd>=0&&fd<1024&&fds[fd].used; }
static int modeflags(const char*m){ int f=0; bool plus=strchr(m,'+'); if(m[0]=='r') f=plus?O_RDWR:O_RDONLY; else if(m[0]=='w') f=(plus?O_RDWR:O_WRONLY)|O_CREAT|O_TRUNC; else f=(plus?O_RDWR:O_WRONLY)|O_CREAT|O_APPEND; if(strchr(m,'x')) f|=O_EXCL; return f; }
static void fillstat(const SimFile&s,struct stat*st){ memset(st,0,sizeof *st); st->st_mode=S_IFREG|0644; st->st_size=s.size; st->st_nlink=1; st->st_blksize=4096; st->st_blocks=(s.size+511)/512; }
// capture of the program's own output
static void capture(int fd,const void*b,size_t n){ if(fd==2) sh->stderr_len+=n; size_t room=sizeof(sh->out)-sh->stdout_len; size_t m=n<room?n:room; memcpy(sh->out+sh->stdout_len,b,m); sh->stdout_len+=m; }
}
#define GUARDED(expr) ({ bool _p=ctx.in_sut; ctx.in_sut=false; auto _r=(expr); ctx.in_sut=_p; _r; })
extern "C" {
typedef FILE* (*fopen_t)(const char*,const char*); typedef int (*fclose_t)(FILE*);
// used by libstdc++'s filebuf (and everything outside the library objects): placeholder FILE on /dev/null + simulated descriptor
FILE* fopen(const char*p,const char*m){ static fopen_t r=nullptr; if(!r) r=real<fopen_t>("fopen"); if(!ctx.in_sut) return r(p,m);
  return GUARDED(({ FILE*F=nullptr; int fd=do_open(p,modeflags(m)); int e=errno; if(fd>=0){ F=fdopen(fd,m[0]=='r'&&!strchr(m,'+')?"r":(m[0]=='r'?"r+":"w+")); } else errno=e; F; })); }
FILE* fopen64(const char*p,const char*m){ return fopen(p,m); }
int fclose(FILE*F){ static fclose_t r=nullptr; if(!r) r=real<fclose_t>("fclose"); int fd=fileno(F); if(!simfd(fd)) return r(F); bool p=ctx.in_sut; ctx.in_sut=false; int ef=do_close_fault(); int e=errno; fds[fd].used=false; r(F); if(ef) errno=e; ctx.in_sut=p; return ef; }
int open(const char*p,int fl,...){ mode_t md=0; if(fl&O_CREAT){ va_list a; va_start(a,fl); md=va_arg(a,mode_t); va_end(a);} if(ctx.in_sut) return GUARDED(do_open(p,fl)); return syscall(SYS_openat,AT_FDCWD,p,fl,md); }
int open64(const char*p,int fl,...){ mode_t md=0; if(fl&O_CREAT){ va_list a; va_start(a,fl); md=va_arg(a,mode_t); va_end(a);} if(ctx.in_sut) return GUARDED(do_open(p,fl)); return syscall(SYS_openat,AT_FDCWD,p,fl,md); }
int creat(const char*p,mode_t m){ return open(p,O_CREAT|O_WRONLY|O_TRUNC,m); }
ssize_t read(int fd,void*b,size_t n){ if(simfd(fd)) return GUARDED(do_read(fds[fd],b,n)); long r=syscall(SYS_read,fd,b,n); return r; }
ssize_t write(int fd,const void*b,size_t n){ if(simfd(fd)) return GUARDED(do_write(fds[fd],b,n)); return syscall(SYS_write,fd,b,n); }
ssize_t writev(int fd,const struct iovec*v,int c){ if(simfd(fd)) return GUARDED(({ std::string s; for(int i=0;i<c;i++) s.append((const char*)v[i].iov_base,v[i].iov_len); do_write(fds[fd],s.data(),s.size()); })); return syscall(SYS_writev,fd,v,c); }
off_t lseek(int fd,off_t o,int w){ if(simfd(fd)) return GUARDED(do_seek(fds[fd],o,w)); return syscall(SYS_lseek,fd,o,w); }
off64_t lseek64(int fd,off64_t o,int w){ if(simfd(fd)) return GUARDED(do_seek(fds[fd],o,w)); return syscall(SYS_lseek,fd,o,w); }
int close(int fd){ if(simfd(fd)){ bool p=ctx.in_sut; ctx.in_sut=false; int r=do_close_fault(); fds[fd].used=false; syscall(SYS_close,fd); ctx.in_sut=p; return r; } return syscall(SYS_close,fd); }
int fsync(int fd){ if(simfd(fd)){ disk->f[fds[fd].file].synced=disk->f[fds[fd].file].size; Fault f=GUARDED(io_fault(IO_OTHER)); if(f.kind==F_EIO){ errno=EIO; return -1;} return 0; } return syscall(SYS_fsync,fd); }
int fdatasync(int fd){ return fsync(fd); }
int ftruncate(int fd,off_t n){ if(simfd(fd)){ SimFile&s=disk->f[fds[fd].file]; if((uint64_t)n>FILECAP){ errno=EFBIG; return -1; } if((uint64_t)n>s.size) memset(disk->data[fds[fd].file]+s.size,0,n-s.size); s.size=n; return 0; } return syscall(SYS_ftruncate,fd,n); }
static int fst(int fd,struct stat*st){ if(simfd(fd)){ Fault f=GUARDED(io_fault(IO_OTHER)); if(f.kind==F_STATFAIL||f.kind==F_EIO){ errno=EIO; return -1;} fillstat(disk->f[fds[fd].file],st); return 0; } return syscall(SYS_fstat,fd,st); }
int fstat(int fd,struct stat*st){ return fst(fd,st);} int fstat64(int fd,struct stat64*st){ return fst(fd,(struct stat*)st);} 
static int sst(const char*p,struct stat*st){ if(ctx.in_sut){ Fault f=GUARDED(io_fault(IO_OTHER)); if(f.kind==F_STATFAIL||f.kind==F_EIO){ errno=EIO; return -1;} int k=disk_find(p); if(k<0){ errno=ENOENT; return -1;} fillstat(disk->f[k],st); return 0; } return syscall(SYS_newfstatat,AT_FDCWD,p,st,0); }
int stat(const char*p,struct stat*st){ return sst(p,st);} int stat64(const char*p,struct stat64*st){ return sst(p,(struct stat*)st);} int lstat(const char*p,struct stat*st){ return sst(p,st);} 
int access(const char*p,int m){ if(ctx.in_sut){ if(disk_find(p)<0){ errno=ENOENT; return -1;} return 0; } return syscall(SYS_faccessat,AT_FDCWD,p,m); }
int unlink(const char*p){ if(ctx.in_sut){ int k=disk_find(p); if(k<0){ errno=ENOENT; return -1;} disk->f[k].used=0; GUARDED((io_fault(IO_OTHER),0)); return 0; } return syscall(SYS_unlink,p); }
int remove(const char*p){ return unlink(p); }
int rename(const char*a,const char*b){ if(ctx.in_sut){ int k=disk_find(a); if(k<0){ errno=ENOENT; return -1;} int j=disk_find(b); if(j>=0&&j!=k) disk->f[j].used=0; snprintf(disk->f[k].name,sizeof disk->f[k].name,"%s",b); GUARDED((io_fault(IO_OTHER),0)); return 0; } return syscall(SYS_rename,a,b); }
// C stdio used directly by the library objects
static ssize_t ck_read(void*c,char*b,size_t n){ return GUARDED(do_read(fds[(intptr_t)c],b,n)); }
static ssize_t ck_write(void*c,const char*b,size_t n){ ssize_t r=GUARDED(do_write(fds[(intptr_t)c],b,n)); return r<0?0:r; }
static int ck_seek(void*c,off64_t*o,int w){ off_t r=GUARDED(do_seek(fds[(intptr_t)c],*o,w)); if(r<0) return -1; *o=r; return 0; }
static int ck_close(void*c){ int fd=(intptr_t)c; int r=GUARDED(do_close_fault()); fds[fd].used=false; syscall(SYS_close,fd); return r; }
FILE* simr_fopen(const char*p,const char*m){ return GUARDED(({ FILE*F=nullptr; int fd=do_open(p,modeflags(m)); if(fd>=0){ cookie_io_functions_t io={ck_read,ck_write,ck_seek,ck_close}; F=fopencookie((void*)(intptr_t)fd,m,io); } F; })); }
int simr_fclose(FILE*F){ static fclose_t r=nullptr; if(!r) r=real<fclose_t>("fclose"); return r(F); }
}

namespace sim {
void global_init(){
  sh=(Shared*)map_shared(sizeof(Shared)); disk=(Disk*)map_shared(sizeof(Disk)); blobs=(unsigned char*)map_shared(BLOBCAP);
  if(mmap((void*)ABASE,ASIZE,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0)!=(void*)ABASE||mmap((void*)SHB,ASIZE>>3,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0)!=(void*)SHB){ fprintf(stderr,"cannot map the simulated heap\n"); exit(98); }
  madvise((void*)ABASE,ASIZE,MADV_HUGEPAGE); madvise((void*)SHB,ASIZE>>3,MADV_HUGEPAGE);
  disk_reset(); setvbuf(stdout,(char*)__libc_malloc(1<<16),_IOFBF,1<<16);
  // warm up lazily initialised parts of the standard library outside any operation
  { std::ostringstream o; o<<1.5<<' '<<(size_t)7<<' '<<3<<' '<<true; char b[64]; snprintf(b,sizeof b,"%.20G %f",1.25,2.5); Env e; heap_reset(e);} 
  // resolve every lazily bound real function now
  { pthread_mutex_t m=PTHREAD_MUTEX_INITIALIZER; pthread_mutex_lock(&m); pthread_mutex_unlock(&m); real<void*>("pthread_mutex_trylock"); FILE*f=fopen("/dev/null","r"); if(f) fclose(f); }
}
}
