// Deterministic simulation core: PRNG, simulated heap, thread scheduler, simulated disk and clock.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <functional>

namespace sim {

// ---------------------------------------------------------------- PRNG
inline uint64_t mix64(uint64_t z){ z+=0x9E3779B97F4A7C15ull; z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31); }
inline uint64_t hash_bytes(const void*p,size_t n,uint64_t h=0xcbf29ce484222325ull){
  const unsigned char*c=(const unsigned char*)p; uint64_t a=h;
  while(n>=8){ uint64_t v; memcpy(&v,c,8); a=mix64(a^v); c+=8; n-=8; }
  uint64_t v=0; memcpy(&v,c,n); return mix64(a^v^((uint64_t)n<<56)); }
inline uint64_t hash_str(const std::string&s,uint64_t h=1){ return hash_bytes(s.data(),s.size(),h); }
struct Rng { uint64_t s; explicit Rng(uint64_t seed=1):s(mix64(seed)){}
  uint64_t next(){ s+=0x9E3779B97F4A7C15ull; uint64_t z=s; z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31);}  
  uint64_t below(uint64_t n){ return n? next()%n:0; }
  int64_t range(int64_t a,int64_t b){ return a+(int64_t)below((uint64_t)(b-a+1)); }
  double uni(){ return (next()>>11)*(1.0/9007199254740992.0); }
  bool chance(double p){ return uni()<p; }
  double sym(){ return 2*uni()-1; }
  uint64_t logu(uint64_t lo,uint64_t hi); // log-uniform
  template<class V> const typename V::value_type& pick(const V&v){ return v[below(v.size())]; }
};

// ---------------------------------------------------------------- per-run environment
struct Env {
  uint32_t fill=0;       // 0: zeros, 1: 0xA5.., 2: 0xFF, 3: pseudo-random, 4: stale/recycled (no fill on reuse), 5: small ints
  uint32_t place=0;      // 0: bump with fixed gaps, 1: bump with random gaps, 2: recycle LIFO, 3: recycle random
  uint32_t stack=0;      // stack paint pattern (0 = none)
  uint64_t seed=1;       // for fill/placement randomness
  uint64_t clock0=1000000000ull; // starting wall-clock (ns)
  uint32_t clockmode=0;  // 0 steady, 1 jumps, 2 backwards jumps, 3 frozen
  uint32_t crand=1;      // C random state
};

// ---------------------------------------------------------------- faults
enum FaultKind { F_NONE=0,
  F_ALLOC_ONCE, F_ALLOC_FROM, F_ALLOC_SIZE,
  F_SHORT, F_EINTR, F_EIO, F_ENOSPC, F_ENOENT, F_EACCES, F_EMFILE, F_SHRINK, F_CLOSEFAIL, F_SEEKFAIL, F_STATFAIL,
  F_KILL_STEP, F_KILL_IO, F_POWER, F_STALL, F_CLOCKJUMP, F_TRUNC, F_KINDS };
extern const char* fault_name[F_KINDS];
enum IoOp { IO_OPEN=0, IO_READ, IO_WRITE, IO_SEEK, IO_CLOSE, IO_OTHER, IO_OPS };
extern const char* io_name[IO_OPS];
struct Fault { int kind=0; int op=-1; int io=0; int64_t n=0; int64_t a=0; }; // op: index of plan operation (-1 any)

// ---------------------------------------------------------------- shared (cross-process) state
const int MAXFILES=24; const size_t FILECAP=1u<<21;
struct SimFile { char name[96]; int used; uint64_t size; uint64_t synced; uint32_t readonly; uint32_t writes; };
struct Disk { SimFile f[MAXFILES]; uint64_t capacity; uint64_t opens, reads, writes, bytes_r, bytes_w; unsigned char data[MAXFILES][FILECAP]; };
extern Disk* disk;
int disk_find(const char*name); int disk_create(const char*name); void disk_reset();
void disk_put(const char*name,const void*p,size_t n); std::string disk_get(const char*name); bool disk_has(const char*name);

enum Outcome { O_NONE=0, O_OK, O_EXIT, O_SIGNAL, O_VIOL, O_KILLED, O_HANG, O_EXC, O_NULL };
struct BlobRef { uint64_t off=0,len=0; };
struct OpRes { int32_t state; int32_t nst; uint64_t digest, size, st[8]; uint64_t allocs; BlobRef c, z; char note[160]; };
const int MAXOPS=64;
struct Shared {
  // violation
  int32_t viol; char vclass[64]; char vmsg[600];
  // outcome
  int32_t exited, exitcode, killed, cur_op;
  uint64_t loghash, steps, switches, hot, allocs, frees, allocfail, simns, schedhash, maxlive;
  uint64_t faultfired[F_KINDS];
  uint64_t probes[64];
  OpRes op[MAXOPS];
  uint64_t nsched; struct { uint64_t step; int32_t t; int32_t pad; } sched[20000];
  int32_t owner[32]; uint64_t nt; char line[2000];
  uint64_t blob_used; uint64_t stdout_len; char out[1<<18]; uint64_t stderr_len;
};
extern Shared* sh;
extern unsigned char* blobs; const size_t BLOBCAP=256u<<20;   // shared artefact store
BlobRef blob_put(const void*p,size_t n);

void violation(const char*cls,const char*fmt,...) __attribute__((format(printf,2,3)));
extern std::string only_class; // (unused) 
void logev(uint64_t v);

// ---------------------------------------------------------------- heap
struct Block { size_t size; int owner; int op; bool live; bool protect; uint64_t seq; };
void heap_reset(const Env&e);
void* heap_alloc(size_t n,int owner);    // owner: -2 harness/caller, >=0 operation
void  heap_release(void*p);
bool  heap_check(const void*p,size_t n); // addressable?
Block* heap_block(void*p); Block* heap_find(const void*p,uintptr_t*base=nullptr);
void heap_protect(void*p,bool on);
size_t heap_live_blocks(); size_t heap_live_bytes();
std::string heap_describe_live(uint64_t after_seq);
uint64_t heap_seq();
void heap_verify();   // guard zones
bool in_arena(const void*p);
extern bool mem_fatal; // report stray accesses as violation
extern uint64_t alloc_index; // counts allocations by operations since op start

// ---------------------------------------------------------------- operation context
struct Ctx { int op=-1; int tid=0; bool in_sut=false; };
extern thread_local Ctx ctx;
struct Sut { bool prev; Sut(){ prev=ctx.in_sut; ctx.in_sut=true;} ~Sut(){ ctx.in_sut=prev; } };
struct NoSut { bool prev; NoSut(){ prev=ctx.in_sut; ctx.in_sut=false;} ~NoSut(){ ctx.in_sut=prev; } };

// ---------------------------------------------------------------- faults/time
void faults_set(const std::vector<Fault>&f);
void env_begin(const Env&e);
uint64_t now_ns();
void paint_stack(uint32_t pat);
void probe(int id);

// ---------------------------------------------------------------- scheduler
struct SchedCfg { uint64_t seed=1; uint64_t lo=1,hi=5000; double hotp=0.3; uint64_t maxsw=2000; bool replay=false; std::vector<std::pair<uint64_t,int>> list; int stall_t=-1; uint64_t stall_at=0; uint64_t budget=0; int first=0; };
void sched_run(std::vector<std::function<void()>>&threads,const SchedCfg&c);
void step_budget(uint64_t n);
extern bool charge_bytes; // block copies count by their size (16 bytes a step), not as one step
extern uint64_t g_step;
extern uint64_t kill_step;  // process killed when g_step reaches it (0 = never)
[[noreturn]] void die(int outcome);

void global_init();
}
