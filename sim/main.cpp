// Command line of the simulator.
//   simcp explore --prop C01 --seed 1 --from 0 --step 8 --count N --seconds T --out FILE [--thorough 1] [--sigs FILE]
//   simcp run FILE       run one plan, print the result (exit 1 on a violation)
//   simcp shrink FILE OUT SECONDS
//   simcp plan --prop C01 --seed 1 --from 5    print a generated plan
#include "world.hpp"
#include <sys/personality.h>
#include <unistd.h>
#include <stdio.h>
#include <stdlib.h>
#include <set>
#include <fstream>
#include <sstream>
#include <chrono>
#include <iostream>
using namespace sim;
static std::string slurp(const char*f){ std::ifstream i(f); std::stringstream s; s<<i.rdbuf(); return s.str(); }
static std::string esc(const std::string&s){ std::string o; for(unsigned char c:s){ if(c=='"'||c=='\\'){ o+='\\'; o+=c; } else if(c<32||c>126){ char b[8]; snprintf(b,8,"\\u%04x",c); o+=b; } else o+=c; } return o; }
static uint64_t plan_seed(uint64_t s,uint64_t i){ return mix64(s*0x9E3779B97F4A7C15ull+i*0xD1B54A32D192ED03ull+7)>>12; }
static void result_json(std::ostream&o,const RunResult&r){ char b[32]; snprintf(b,32,"%016llx",(unsigned long long)r.hash); o<<"{\"viol\":"<<(r.viol?1:0)<<",\"invalid\":"<<(r.invalid?1:0)<<",\"cls\":\""<<esc(r.cls)<<"\",\"msg\":\""<<esc(r.msg)<<"\",\"hash\":\""<<b<<"\"}"; }
int main(int argc,char**argv){
  if(!getenv("SIMCP_NOASLR")){ int p=personality(0xffffffff); if(p!=-1&&!(p&ADDR_NO_RANDOMIZE)){ if(personality(p|ADDR_NO_RANDOMIZE)!=-1){ setenv("SIMCP_NOASLR","1",1); execv("/proc/self/exe",argv); } } }
  global_init(); load_plain();
  std::string cmd=argc>1?argv[1]:""; std::map<std::string,std::string> a; std::vector<std::string> pos; for(int i=2;i<argc;i++){ std::string k=argv[i]; if(k.substr(0,2)=="--"&&i+1<argc){ a[k.substr(2)]=argv[++i]; } else pos.push_back(k); }
  auto num=[&](const char*k,uint64_t d){ return a.count(k)?strtoull(a[k].c_str(),0,10):d; };
  if(cmd=="plan"){ Plan p=gen_plan(a["prop"],plan_seed(num("seed",1),num("from",0)),num("thorough",0)); std::cout<<plan_text(p); return 0; }
  if(cmd=="run"||cmd=="replay"){ Plan p; if(!plan_parse(slurp(pos[0].c_str()),p)){ fprintf(stderr,"cannot parse %s\n",pos[0].c_str()); return 2; } RunResult r=run_plan(p); result_json(std::cout,r); std::cout<<"\n"; return r.viol?1:r.invalid?4:0; }
  if(cmd=="shrink"){ Plan p; if(!plan_parse(slurp(pos[0].c_str()),p)) return 2; RunResult r=run_plan(p); if(!r.viol){ fprintf(stderr,"no violation\n"); return 4; } std::string log; shrink(p,r,atof(pos[2].c_str()),&log); std::ofstream o(pos[1]); o<<"# "<<log<<"\n# class "<<r.cls<<"\n# "<<r.msg<<"\n"<<plan_text(p); o.close(); result_json(std::cout,r); std::cout<<"\n"; return 1; }
  if(cmd=="explore"){ std::string prop=a["prop"]; uint64_t seed=num("seed",1),from=num("from",0),step=num("step",1),count=num("count",1000000); double secs=atof(a.count("seconds")?a["seconds"].c_str():"1e9"); bool th=num("thorough",0); uint64_t recheck=num("recheck",25), maxv=num("maxviol",1); std::string out=a["out"];
    std::vector<std::pair<std::string,std::string>> known; uint64_t nknown=0; if(a.count("known")){ std::ifstream kf(a["known"]); std::string l; while(std::getline(kf,l)){ size_t t=l.find('\t'); if(t!=std::string::npos) known.push_back({l.substr(0,t),l.substr(t+1)}); } }
    auto t0=std::chrono::steady_clock::now(); Stats st; std::set<uint64_t> sigs; uint64_t done=0,inv=0,rechecked=0,nviol=0; std::map<std::string,uint64_t> invm; std::vector<std::string> samples; double maxone=0; std::ostringstream js; std::map<std::string,uint64_t> worlds,opk;
    for(uint64_t i=0;i<count;i++){ auto t1=std::chrono::steady_clock::now(); if(std::chrono::duration<double>(t1-t0).count()>secs) break; uint64_t id=from+i*step; Plan p=gen_plan(prop,plan_seed(seed,id),th); if(p.world=="none"){ inv++; continue; }
      RunResult r=run_plan(p); double dt=std::chrono::duration<double>(std::chrono::steady_clock::now()-t1).count(); if(dt>maxone) maxone=dt; if(a.count("verbose")) fprintf(stderr,"%llu %.3fs viol=%d inv=%d %s\n",(unsigned long long)id,dt,r.viol,r.invalid,r.msg.c_str());
      done++; st.add(r.st); worlds[p.world]++; for(auto&o:p.ops){ std::string k=kind_name[o.kind]; if(o.kind<=K_D||o.kind==K_STORE) k+=std::string(":")+codec_name[o.codec]+(o.dbl?"<double>":"<float>"); opk[k]++; }
      if(r.invalid){ inv++; invm[r.msg.substr(0,140)]++; if(a.count("invdir")&&inv<=20){ std::ofstream o(a["invdir"]+"/inv_"+prop+"_"+std::to_string(id)); o<<"# "<<r.msg<<"\n"<<plan_text(p); } continue; }
      if(r.nontrivial) sigs.insert(r.sig); if(samples.size()<3&&r.nontrivial) samples.push_back(plan_text(p));
      if(r.viol||(recheck&&id%recheck==0)){ RunResult r2=run_plan(p); rechecked++; if(r2.hash!=r.hash||r2.viol!=r.viol||r2.cls!=r.cls){ js<<(js.tellp()>0?",":"")<<"{\"nondet\":1,\"id\":"<<id<<",\"plan\":\""<<esc(plan_text(p))<<"\",\"a\":"; result_json(js,r); js<<",\"b\":"; result_json(js,r2); js<<"}"; nviol++; if(nviol>=maxv) break; continue; } }
      if(r.viol){ bool k=false; for(auto&kn:known) if(r.cls==kn.first&&r.msg.find(kn.second)!=std::string::npos) k=true; if(k){ nknown++; continue; } }
      if(r.viol){ js<<(js.tellp()>0?",":"")<<"{\"nondet\":0,\"id\":"<<id<<",\"plan\":\""<<esc(plan_text(p))<<"\",\"a\":"; result_json(js,r); js<<"}"; nviol++; if(nviol>=maxv) break; } }
    double wall=std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count();
    std::ofstream o(out.empty()?"/dev/stdout":out); o<<"{\"prop\":\""<<prop<<"\",\"runs\":"<<done<<",\"known\":"<<nknown<<",\"invalid\":"<<inv<<",\"rechecked\":"<<rechecked<<",\"wall\":"<<wall<<",\"maxone\":"<<maxone<<",\"has3d\":"<<(codec_name[0]&&glue_has3d()?1:0)<<",\"distinct\":"<<sigs.size()<<",\"found\":["<<js.str()<<"],\"stats\":{";
    o<<"\"children\":"<<st.children<<",\"steps\":"<<st.steps<<",\"switches\":"<<st.switches<<",\"hot\":"<<st.hot<<",\"allocs\":"<<st.allocs<<",\"frees\":"<<st.frees<<",\"simns\":"<<st.simns<<",\"nontrivial\":"<<st.nontrivial<<"},\"faults\":{"; bool c=false; for(int i=1;i<F_KINDS;i++) if(st.fired[i]){ o<<(c?",":"")<<"\""<<fault_name[i]<<"\":"<<st.fired[i]; c=true; } o<<"},\"probes\":{"; c=false; for(int i=0;i<64;i++) if(probe_name[i]){ o<<(c?",":"")<<"\""<<probe_name[i]<<"\":"<<st.probes[i]; c=true; } o<<"},\"worlds\":{"; c=false; for(auto&w:worlds){ o<<(c?",":"")<<"\""<<w.first<<"\":"<<w.second; c=true; } o<<"},\"ops\":{"; c=false; for(auto&w:opk){ o<<(c?",":"")<<"\""<<w.first<<"\":"<<w.second; c=true; } o<<"},\"invalid_reasons\":{"; c=false; int k=0; for(auto&w:invm){ if(k++>30) break; o<<(c?",":"")<<"\""<<esc(w.first)<<"\":"<<w.second; c=true; } o<<"},\"samples\":["; c=false; for(auto&s:samples){ o<<(c?",":"")<<"\""<<esc(s)<<"\""; c=true; } o<<"]}\n"; o.close();
    if(a.count("sigs")){ std::ofstream s(a["sigs"],std::ios::binary); for(auto x:sigs) s.write((const char*)&x,8); }
    return nviol?1:0; }
  fprintf(stderr,"usage: simcp explore|run|shrink|plan ...\n"); return 2; }
