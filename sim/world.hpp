// Plans (one plan = one exactly repeatable simulated history), their execution and their generators.
#pragma once
#include "core.hpp"
#include "api.hpp"
#include <string>
#include <vector>
#include <map>
namespace sim {
#define OP_INTS(X) X(kind) X(codec) X(dbl) X(r1) X(r2) X(r3) X(fk) X(fseed) X(bs) X(ind) X(tr) X(thread) X(ep) X(ref) X(prealloc) X(ebk) X(level) X(n) X(alpha) X(skew) X(share) X(typ)
#define OP_DBLS(X) X(amp) X(eb)
enum OpKind { K_RT=0, K_C, K_D, K_L, K_H, K_STORE, K_LOAD, K_READ, K_WRITE, K_PROG, K_HUNT, K_N };
extern const char* kind_name[K_N];
extern const char* codec_name[C_N];
struct Op {
#define X(f) int64_t f=0;
  OP_INTS(X)
#undef X
#define X(f) double f=0;
  OP_DBLS(X)
#undef X
};
struct Plan { std::string world, prop; uint64_t seed=0; Env env; std::vector<Op> ops; std::vector<Fault> faults; SchedCfg sched; std::map<int,std::vector<std::pair<uint64_t,int>>> lists; bool replay=false; std::map<std::string,int64_t> par;
  int64_t p(const char*k,int64_t d=0) const { auto i=par.find(k); return i==par.end()?d:i->second; } };
std::string plan_text(const Plan&); bool plan_parse(const std::string&,Plan&); std::string op_text(const Op&);
struct Stats { uint64_t runs=0,children=0,steps=0,switches=0,hot=0,allocs=0,frees=0,simns=0,nontrivial=0; uint64_t fired[F_KINDS]={0}; uint64_t probes[64]={0}; void add(const Stats&o); };
struct RunResult { bool viol=false; bool invalid=false; std::string cls,msg; uint64_t hash=0, sig=0; bool nontrivial=false; Stats st; std::map<int,std::vector<std::pair<uint64_t,int>>> lists; };
RunResult run_plan(const Plan&); void load_plain();
Plan gen_plan(const std::string&prop,uint64_t seed,bool thorough);
extern const char* probe_name[64];
bool shrink(Plan&p,RunResult&r,double seconds,std::string*log);
}
