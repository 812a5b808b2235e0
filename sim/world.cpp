#include "world.hpp"
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <math.h>
#include <float.h>
#include <algorithm>
#include <sstream>
#include <set>
#include <chrono>
#include <stdexcept>
#include <dlfcn.h>
#include <malloc.h>

namespace sim {
const char* kind_name[K_N]={"roundtrip","compress","decompress","lossless","huffman","store","load","read","write","program","hunt"};
const char* codec_name[C_N]={"2d","2d_with_eb","3d","3d_with_eb","2d_pwr","2d_pwr_with_eb","2d_offline","2d_offline_log","2d_online","2d_online_abs","2d_online_abs_relax_FN","2d_online_log","2d_bilinear_online_log","sz3_2d_online_abs","3d_offline_log","3d_online_log","3d_online_abs","3d_unstructured"};
const char* probe_name[64]={"roundtrip_done","decompress_only_done","huffman_stream_done","lossless_done","incompressible_over_half","unpredictable_heavy","critical_cells_seen","load_after_restart","load_after_crash","crash_inside_store","overwrite","truncated_presented","reader_full","reader_partial_prefix","reader_reported","writer_ok","writer_reported","prog_killed","prog_completed","rerun_over_partial_output","oom_visible","oom_survived","prealloc_outputs","leak_rounds","shared_inputs","single_symbol_alphabet","large_alphabet","near_degenerate_cells_skipped","all_values_exact","history_len_ge3","multi_block_dims","one_wide_dim","single_valued_archives","smooth_loose_archives","hunt_rounds","hunt_improvements","hunt_within_5pct_of_limit","hunt_unconfirmed"};
enum { P_RT,P_DEC,P_HUF,P_LL,P_INC,P_UNP,P_CP,P_LAR,P_LAC,P_CIS,P_OVW,P_TRU,P_RF,P_RP,P_RR,P_WOK,P_WRE,P_PK,P_PC,P_RPO,P_OV,P_OS,P_PRE,P_LEAK,P_SHI,P_ONESYM,P_BIGAL,P_DEG,P_EXACT,P_H3,P_MB,P_OW,P_CONSTF,P_SMOOTH,P_HR,P_HI,P_HN,P_HU };
static const uint64_t STEPCAP=1500000000ull; // no run that ends needs more memory accesses than a fraction of this
static const double WORK_A=6e7,WORK_B=1500,MEM_A=1.5e8,MEM_B=400; // C21: memory accesses and peak bytes an operation may take, fixed part and per value; at least four times what the slowest operation needs
static const double SZ_BLOCK=0.4,SZ_CPA=0.45,SZ_CP2=0.7,SZ_CP3=0.7; // C15: archive size over raw size for smooth data and loose bounds

// ================================================================ plan text
std::string op_text(const Op&o){ std::ostringstream s; s<<"op";
#define X(f) if(o.f||!strcmp(#f,"kind")) s<<" "#f"="<<o.f;
  OP_INTS(X)
#undef X
  char b[64];
#define X(f) if(o.f!=0){ snprintf(b,sizeof b," " #f "=%.17g",o.f); s<<b; }
  OP_DBLS(X)
#undef X
  return s.str(); }
std::string plan_text(const Plan&p){ std::ostringstream s;
  s<<"world "<<p.world<<"\nprop "<<p.prop<<"\nseed "<<p.seed<<"\n";
  s<<"env fill="<<p.env.fill<<" place="<<p.env.place<<" stack="<<p.env.stack<<" seed="<<p.env.seed<<" clock0="<<p.env.clock0<<" clockmode="<<p.env.clockmode<<" crand="<<p.env.crand<<"\n";
  char b[64]; snprintf(b,sizeof b,"%.17g",p.sched.hotp);
  s<<"sched seed="<<p.sched.seed<<" lo="<<p.sched.lo<<" hi="<<p.sched.hi<<" hotp="<<b<<" maxsw="<<p.sched.maxsw<<" stallt="<<p.sched.stall_t<<" stallat="<<p.sched.stall_at<<" first="<<p.sched.first<<" replay="<<(p.replay?1:0)<<"\n";
  for(auto&k:p.par) s<<"par "<<k.first<<"="<<k.second<<"\n";
  for(auto&o:p.ops) s<<op_text(o)<<"\n";
  for(auto&f:p.faults) s<<"fault kind="<<fault_name[f.kind]<<" op="<<f.op<<" io="<<io_name[f.io]<<" n="<<f.n<<" a="<<f.a<<"\n";
  if(p.replay) for(auto&l:p.lists){ s<<"switches epoch="<<l.first; for(auto&x:l.second) s<<" "<<x.first<<":"<<x.second; s<<"\n"; }
  return s.str(); }
static std::map<std::string,std::string> kv(std::istringstream&is){ std::map<std::string,std::string> m; std::string t; while(is>>t){ size_t e=t.find('='); if(e!=std::string::npos) m[t.substr(0,e)]=t.substr(e+1); } return m; }
static int64_t gi(std::map<std::string,std::string>&m,const char*k,int64_t d=0){ auto i=m.find(k); return i==m.end()?d:(i->second[0]=='-'?strtoll(i->second.c_str(),0,10):(int64_t)strtoull(i->second.c_str(),0,10)); }
static double gd(std::map<std::string,std::string>&m,const char*k,double d=0){ auto i=m.find(k); return i==m.end()?d:strtod(i->second.c_str(),0); }
bool plan_parse(const std::string&t,Plan&p){ std::istringstream in(t); std::string line; p=Plan(); 
  while(std::getline(in,line)){ if(line.empty()||line[0]=='#') continue; std::istringstream is(line); std::string h; is>>h;
    if(h=="world") is>>p.world; else if(h=="prop") is>>p.prop; else if(h=="seed") is>>p.seed;
    else if(h=="env"){ auto m=kv(is); p.env.fill=gi(m,"fill"); p.env.place=gi(m,"place"); p.env.stack=gi(m,"stack"); p.env.seed=gi(m,"seed",1); p.env.clock0=gi(m,"clock0",1000000000); p.env.clockmode=gi(m,"clockmode"); p.env.crand=gi(m,"crand",1); }
    else if(h=="sched"){ auto m=kv(is); p.sched.seed=gi(m,"seed",1); p.sched.lo=gi(m,"lo",1); p.sched.hi=gi(m,"hi",1000); p.sched.hotp=gd(m,"hotp"); p.sched.maxsw=gi(m,"maxsw",100); p.sched.stall_t=gi(m,"stallt",-1); p.sched.stall_at=gi(m,"stallat"); p.sched.first=gi(m,"first"); p.replay=gi(m,"replay"); }
    else if(h=="par"){ std::string x; is>>x; size_t e=x.find('='); p.par[x.substr(0,e)]=strtoll(x.c_str()+e+1,0,10); }
    else if(h=="op"){ auto m=kv(is); Op o;
#define X(f) o.f=gi(m,#f);
      OP_INTS(X)
#undef X
#define X(f) o.f=gd(m,#f);
      OP_DBLS(X)
#undef X
      p.ops.push_back(o); }
    else if(h=="fault"){ auto m=kv(is); Fault f; for(int i=0;i<F_KINDS;i++) if(m["kind"]==fault_name[i]) f.kind=i; for(int i=0;i<IO_OPS;i++) if(m["io"]==io_name[i]) f.io=i; f.op=gi(m,"op",-1); f.n=gi(m,"n"); f.a=gi(m,"a"); p.faults.push_back(f); }
    else if(h=="switches"){ std::string x; is>>x; int e=atoi(x.c_str()+6); auto&l=p.lists[e]; while(is>>x){ size_t c=x.find(':'); l.push_back({strtoull(x.c_str(),0,10),atoi(x.c_str()+c+1)}); } }
    else return false; }
  return !p.world.empty(); }

void Stats::add(const Stats&o){ runs+=o.runs; children+=o.children; steps+=o.steps; switches+=o.switches; hot+=o.hot; allocs+=o.allocs; frees+=o.frees; simns+=o.simns; nontrivial+=o.nontrivial; for(int i=0;i<F_KINDS;i++) fired[i]+=o.fired[i]; for(int i=0;i<64;i++) probes[i]+=o.probes[i]; }

// ================================================================ codecs and inputs
struct CInfo { int nc; int dim; int dbl; int ebs; int group; };  // group 0 block abs,1 block rel,2 vec2 rel,3 vec2 abs,4 vec3 rel,5 vec3 abs
static const CInfo ci[C_N]={ {1,2,0,0,0},{1,2,1,1,0},{1,3,1,0,0},{1,3,1,1,0},{1,2,0,0,1},{1,2,0,1,1},
  {2,2,1,0,2},{2,2,1,0,2},{2,2,1,0,2},{2,2,1,0,3},{2,2,1,0,3},{2,2,1,0,2},{2,2,1,0,2},{2,2,1,0,3},
  {3,3,1,0,4},{3,3,1,0,4},{3,3,1,0,5},{1,1,1,0,4} };
static size_t nelem(const Op&o){ if(o.codec==C_3UNS) return (size_t)o.r1*3; return (size_t)o.r1*o.r2*(ci[o.codec].dim==3?o.r3:1); }
struct Input { int nc=0; size_t n=0; std::vector<std::vector<double>> d; std::vector<double> ebs; std::vector<int> tets; std::vector<double> pts; };
const int NFIELD=23;
static const char* field_name[NFIELD]={"smooth","white_noise","constant","zeros","ramp","smooth_spikes","zero_regions","wide_magnitude","vortices","small_integers","steps","near_constant","tiny","large","saddle_noise","sparse","mixed_regions","sign_checker","minute","on_grid","half_grid","near_degenerate","rotated_noise"};
static void gen_field(std::vector<double>&a,int fk,int comp,int n1,int n2,int n3,uint64_t seed,double amp){
  size_t n=(size_t)n1*n2*n3; a.resize(n); Rng r(mix64(seed)+comp*7919);
  Rng rs(mix64(seed)); double ph[6][4]; for(int k=0;k<4;k++) for(int q=0;q<6;q++) ph[q][k]=r.uni();
  int nv=1+rs.below(6); double vx[6],vy[6],vs[6]; for(int k=0;k<6;k++){ vx[k]=rs.uni(); vy[k]=rs.uni(); vs[k]=rs.chance(0.5)?1:-1; }
  double base=r.sym()*3; double p1=0.5+3*ph[0][0],p2=0.5+3*ph[0][1],p3=0.5+3*ph[0][2]; int cut=1+r.below(5); 
  Rng rs2(mix64(seed)^0x51); // the same sequence for every component
  size_t t=0; for(int i=0;i<n1;i++) for(int j=0;j<n2;j++) for(int k=0;k<n3;k++,t++){
    double x=n1>1?(double)i/(n1-1):0,y=n2>1?(double)j/(n2-1):0,z=n3>1?(double)k/(n3-1):0;
    double sm=0; for(int q=0;q<3;q++) sm+=sin(6.283*((q+1)*(p1*x*ph[1][q]+p2*y*ph[2][q]+p3*z*ph[3][q])+ph[4][q]))/(q+1);
    double v=0;
    switch(fk){
      case 0: v=sm; break; case 1: v=r.sym(); break; case 2: v=base; break; case 3: v=0; break;
      case 4: v=base+ph[1][0]*i+ph[1][1]*j-ph[1][2]*k; break;
      case 5: v=sm; if(r.chance(0.03)) v+=r.sym()*1000; break;
      case 6: v=sm; if((i/(cut+1)+j/(cut+2)+k)%3==0) v=0; break;
      case 7: v=(r.chance(0.5)?1:-1)*pow(10,-6+12*r.uni()); break;
      case 8: { for(int q=0;q<nv;q++){ double dx=x-vx[q],dy=y-vy[q]; double g=exp(-8*(dx*dx+dy*dy)); v+= comp==0? -vs[q]*dy*g : comp==1? vs[q]*dx*g : g*(z-0.5); } v+=0.02*ph[5][0]; break; }
      case 9: v=(double)r.range(-3,3); break;
      case 10: v=floor(3*sm); break;
      case 11: v=base+r.sym()*1e-5; break;
      case 12: v=sm*1e-20; break; case 13: v=sm*1e15; break;
      case 14: v= (comp==0? x-ph[1][3] : comp==1? ph[2][3]-y : z-0.5)+0.02*r.sym(); break;
      case 15: v=r.chance(0.1)? r.sym():0; break;
      case 16: { int q=(i*2/(n1>1?n1:1))*2+(j*2/(n2>1?n2:1)); v= q==0? sm : q==1? r.sym() : q==2? 0 : base; break; }
      case 17: v=((i+j+k)&1?-1:1)*(0.5+ph[0][0]+0.3*sm); break;
      case 18: v=sm*1e-34; break;
      case 19: case 20: v=nv&1?sm:2*r.sym(); break; // put on multiples (19) or odd multiples (20) of the bound by make_input
      case 21: { double s=rs2.sym(); v= comp==0? s+0.3*r.sym()*r.uni() : comp==1? s*(1+0.2*r.sym()*r.uni()) : r.sym(); break; } // components nearly proportional: cells close to gaining or losing a critical point
      case 22: { double th=6.283*rs2.uni(),m=pow(10,-2*rs2.uni()); v= m*(comp==0?cos(th):comp==1?sin(th):r.sym()); break; } }
    a[t]=v*amp; } }
static Input make_input(const Op&o){ Input in; in.nc=ci[o.codec].nc; in.n=nelem(o); in.d.resize(in.nc);
  for(int c=0;c<in.nc;c++){ if(o.codec==C_3UNS){ std::vector<double> t; in.d[0].resize(in.n); for(int q=0;q<3;q++){ gen_field(t,o.fk%NFIELD,q,o.r1,1,1,o.fseed,o.amp); for(int i=0;i<o.r1;i++) in.d[0][3*i+q]=t[i]; } }
    else gen_field(in.d[c],o.fk%NFIELD,c,o.r1,o.r2,ci[o.codec].dim==3?o.r3:1,o.fseed,o.amp);
    if(o.fk%NFIELD==19||o.fk%NFIELD==20) for(auto&v:in.d[c]){ double q=v/o.eb; if(fabs(q)<1e6) v= o.eb*(2*floor(q/2)+(o.fk%NFIELD==20)); }
    if(o.fk>=NFIELD){ Rng rz(mix64(o.fseed*9+c)); int k=o.fk/NFIELD; double pz=pow(10,-2.5*rz.uni()); bool blk=rz.chance(0.3); size_t from=rz.below(in.d[c].size()); size_t i=0; for(auto&v:in.d[c]){ if(blk? i>=from : rz.chance(pz)) v= k==1? NAN : k==2? (rz.chance(0.5)?INFINITY:-INFINITY) : k==3||k==5? (o.dbl?1.7e308:3.3e38)*rz.sym()/(k==5?16:1) : rz.chance(0.3)? NAN : rz.chance(0.5)? INFINITY : -INFINITY; i++; } } // missing and unbounded values
    if(!o.dbl) for(auto&v:in.d[c]) v=(float)v; }
  if(ci[o.codec].ebs){ in.ebs.resize(in.n); Rng r(o.fseed*77+5); for(size_t i=0;i<in.n;i++){ double e=o.eb; switch(o.ebk){ case 0: break; case 1: e*=0.1+0.9*r.uni(); break; case 2: e*=pow(10,-3*r.uni()); break; case 3: if(r.chance(0.3)) e=0; break; case 4: if((i/3)%2) e*=0.01; break; } in.ebs[i]=e; } }
  if(o.codec==C_3UNS){ Rng r(o.fseed*131+9); in.pts.resize(3*o.r1); for(auto&v:in.pts) v=r.uni(); int m=o.kind==K_STORE||o.kind==K_HUNT?(int)o.alpha:(int)o.n; if(m<1) m=1; Rng rh(mix64(o.fseed+71)); int hub=rh.chance(0.4)?(int)rh.below(o.r1):-1; double hubp=0.5+0.5*rh.uni(); /* a vertex most tetrahedra share */ for(int t=0;t<m;t++){ int v[4]; bool h=hub>=0&&rh.chance(hubp); int at=rh.below(4); for(int qq=0;qq<4;qq++){ int q=(qq+(h?at:0))&3; bool dup; do{ v[q]= h&&qq==0? hub : (int)r.below(o.r1); dup=false; for(int w=0;w<qq;w++) if(v[(w+(h?at:0))&3]==v[q]) dup=true; }while(dup); } for(int q=0;q<4;q++) in.tets.push_back(v[q]); } }
  return in; }
struct Live { Req q; std::vector<void*> blocks; std::vector<size_t> sizes; uint64_t dig=0; };
static void* put(Live&l,const void*p,size_t n){ void*b=heap_alloc(n,-2); memcpy(b,p,n); heap_protect(b,true); l.blocks.push_back(b); l.sizes.push_back(n); l.dig=hash_bytes(b,n,l.dig+1); return b; }
static void* putv(Live&l,const std::vector<double>&v,bool dbl){ if(dbl) return put(l,v.data(),v.size()*8); std::vector<float> f(v.begin(),v.end()); return put(l,f.data(),f.size()*4); }
static void mk_req(const Op&o,Req&q){ memset(&q,0,sizeof q); q.codec=o.codec; q.dbl=o.dbl; q.r1=o.r1; q.r2=o.r2; q.r3=o.r3; q.eb=o.eb; q.bs=o.bs; q.ind=o.ind; q.transpose=o.tr; }
static void materialise(const Op&o,const Input&in,Live&l,bool data=true){ mk_req(o,l.q); if(data) for(int c=0;c<in.nc;c++) l.q.in[c]=putv(l,in.d[c],o.dbl);
  if(!in.ebs.empty()) l.q.ebs=(double*)put(l,in.ebs.data(),in.ebs.size()*8); if(!in.tets.empty()){ l.q.tets=(int*)put(l,in.tets.data(),in.tets.size()*4); l.q.ntets=in.tets.size()/4; l.q.points=putv(l,in.pts,o.dbl); } }
static uint64_t live_digest(const Live&l){ uint64_t d=0; for(size_t i=0;i<l.blocks.size();i++) d=hash_bytes(l.blocks[i],l.sizes[i],d+1); return d; }
static void release_live(Live&l){ for(void*b:l.blocks){ heap_protect(b,false); heap_release(b); } l.blocks.clear(); }

// ================================================================ oracles
static inline double ulp_of(double a,bool dbl){ return fabs(a)*(dbl?2.3e-16:1.2e-7)+(dbl?4.9e-324:2.8e-45); }
static double g_slack=1e-9; // relative slack on the bound itself (representation rounding), see DESIGN.md
static std::string check_bounds(const Op&o,const Input&in,void**outs){ bool dbl=o.dbl; int g=ci[o.codec].group; char b[300]; double worst=0; std::string err;
  for(int c=0;c<in.nc;c++) for(size_t i=0;i<in.n;i++){ double x=in.d[c][i]; double y= dbl? ((double*)outs[c])[i] : ((float*)outs[c])[i]; double e=in.ebs.empty()?o.eb:in.ebs[i]; double lim;
      if(g==0||g==3||g==5) lim=e*(1+g_slack)+ulp_of(x,dbl)*0.5; else lim=fabs(x)*e*(1+g_slack)+ (o.codec==C_OFF||o.codec==C_ON? ulp_of(x,dbl)*0.5 : fabs(x)*(fabs(x)>0?fabs(log2(fabs(x))):0)*(dbl?2.3e-16:1.2e-7)+ulp_of(x,dbl)*2);
      double d=fabs(x-y); if(!(d<=lim)){ double ratio= lim>0? d/lim : INFINITY; if(!(ratio<=worst)&&err.empty()){ worst=ratio; snprintf(b,sizeof b,"%s: component %d element %zu was %.9g, restored as %.9g, error %.4g over allowed %.4g",codec_name[o.codec],c,i,x,y,d,lim); err=b; } } }
  return err; }
typedef long double Q; // 64-bit mantissa: far finer than every rounding margin used below
static int robust_sign(Q a,Q b,bool dbl){ // sign of a-b if clear of rounding, 0 otherwise
  Q d=a-b; Q m=(a<0?-a:a)+(b<0?-b:b); Q tol=m*(dbl?(Q)1e-13:(Q)2e-5); if(d>tol) return 1; if(d<-tol) return -1; return 0; }
// 1 critical point inside, 0 none, -1 within rounding
static int tri_class(const double*u,const double*v,bool dbl){ int s[3]; s[0]=robust_sign((Q)u[2]*v[0],(Q)u[0]*v[2],dbl); s[1]=robust_sign((Q)u[1]*v[2],(Q)u[2]*v[1],dbl); s[2]=robust_sign((Q)u[0]*v[1],(Q)u[1]*v[0],dbl);
  bool p=s[0]>0||s[1]>0||s[2]>0,n=s[0]<0||s[1]<0||s[2]<0; if(p&&n) return 0; if(s[0]&&s[0]==s[1]&&s[1]==s[2]) return 1; return -1; }
// bilinear cell: number of clear roots in the open unit square, or -1 when unclear
static int bilin_class(const double*u,const double*v){ // corners 00,10,11,01 in (x,y)
  // f = A xy + B x + C y + D
  double A0=u[0]-u[1]-u[3]+u[2],B0=u[1]-u[0],C0=u[3]-u[0],D0=u[0]; double A1=v[0]-v[1]-v[3]+v[2],B1=v[1]-v[0],C1=v[3]-v[0],D1=v[0];
  // eliminate x: x=-(C0 y+D0)/(A0 y+B0)  -> quadratic in y
  double a=A0*C1-A1*C0, b=A0*D1+B0*C1-A1*D0-B1*C0, c=B0*D1-B1*D0; double sc=fabs(a)+fabs(b)+fabs(c); double full=(fabs(u[0])+fabs(u[1])+fabs(u[2])+fabs(u[3]))*(fabs(v[0])+fabs(v[1])+fabs(v[2])+fabs(v[3]));
  if(full==0||sc<1e-5*full) return -1; a/=sc;b/=sc;c/=sc; double dl=b*b-4*a*c; if(fabs(dl)<1e-4) return -1; if(fabs(a)<1e-4) return -1;
  if(dl<0) return 0; int n=0; double sq=sqrt(dl); for(int k=0;k<2;k++){ double y=(-b+(k?sq:-sq))/(2*a); if(fabs(y)<1e-3||fabs(y-1)<1e-3) return -1; if(y<0||y>1) continue; double den0=A0*y+B0,den1=A1*y+B1; double su=fabs(u[0])+fabs(u[1])+fabs(u[2])+fabs(u[3]),sv=fabs(v[0])+fabs(v[1])+fabs(v[2])+fabs(v[3]); double x; if(su>0&&(sv==0||fabs(den0)/su>fabs(den1)/sv)){ if(fabs(den0)<1e-3*su) return -1; x=-(C0*y+D0)/den0; } else { if(sv==0||fabs(den1)<1e-3*sv) return -1; x=-(C1*y+D1)/den1; } if(fabs(x)<1e-3||fabs(x-1)<1e-3) return -1; if(x>0&&x<1) n++; }
  return n; }
// ---- types of critical points (2D). 0 saddle, 1 attracting node, 2 repelling node, 3 attracting focus, 4 repelling focus, -1 within rounding
static int rsign(Q d,Q mag,Q tol){ return d>mag*tol?1:d<-mag*tol?-1:0; }
static inline Q qabs(Q x){ return x<0?-x:x; }
static int jac_type(Q a,Q b,Q c,Q d,Q ma,Q mb,Q mc,Q md,Q tol){ // J=[a b;c d], m* = magnitudes of the terms that make up the entries
  Q det=a*d-b*c,tr=a+d; Q mdet=ma*md+mb*mc,mtr=ma+md; int sd=rsign(det,mdet,tol); if(!sd) return -1; if(sd<0) return 0;
  Q disc=tr*tr-4*det; int sx=rsign(disc,mtr*mtr+4*mdet,tol),stt=rsign(tr,mtr,tol); if(!sx||!stt) return -1; return sx>0?(stt<0?1:2):(stt<0?3:4); }
// triangle with corners 0, (row+1 | col+1), (row+1,col+1); x runs along columns, y along rows
static int tri_type(const double*u,const double*v,int k,bool dbl){ Q tol=dbl?(Q)1e-12:(Q)5e-5; Q ux,uy,vx,vy; 
  if(k==0){ uy=(Q)u[1]-u[0]; ux=(Q)u[2]-u[1]; vy=(Q)v[1]-v[0]; vx=(Q)v[2]-v[1]; } else { ux=(Q)u[1]-u[0]; uy=(Q)u[2]-u[1]; vx=(Q)v[1]-v[0]; vy=(Q)v[2]-v[1]; }
  int ia=k==0?2:1,ib=k==0?1:0, ja=k==0?1:2,jb=k==0?0:1; // x difference uses ia,ib; y difference uses ja,jb
  return jac_type(ux,uy,vx,vy,qabs(u[ia])+qabs(u[ib]),qabs(u[ja])+qabs(u[jb]),qabs(v[ia])+qabs(v[ib]),qabs(v[ja])+qabs(v[jb]),tol); }
static const char* type_name(int t){ static const char*n[]={"saddle","attracting node","repelling node","attracting focus","repelling focus"}; return t<0?"unclear":n[t]; }
static bool bilin_types(const double*u,const double*v,std::vector<int>&ty){ double A0=u[0]-u[1]-u[3]+u[2],B0=u[1]-u[0],C0=u[3]-u[0],D0=u[0]; double A1=v[0]-v[1]-v[3]+v[2],B1=v[1]-v[0],C1=v[3]-v[0],D1=v[0];
  double a=A0*C1-A1*C0,b=A0*D1+B0*C1-A1*D0-B1*C0,c=B0*D1-B1*D0; double dl=b*b-4*a*c; if(dl<0||a==0) return true; double sq=sqrt(dl); double su=fabs(u[0])+fabs(u[1])+fabs(u[2])+fabs(u[3]),sv=fabs(v[0])+fabs(v[1])+fabs(v[2])+fabs(v[3]);
  for(int k=0;k<2;k++){ double y=(-b+(k?sq:-sq))/(2*a); if(y<0||y>1) continue; double d0=A0*y+B0,d1=A1*y+B1; double x= su>0&&(sv==0||fabs(d0)/su>fabs(d1)/sv)? -(C0*y+D0)/d0 : -(C1*y+D1)/d1; if(x<0||x>1) continue;
    double m0=fabs(u[0])+fabs(u[1])+fabs(u[2])+fabs(u[3]),m1=fabs(v[0])+fabs(v[1])+fabs(v[2])+fabs(v[3]); int t=jac_type(A0*y+B0,A0*x+C0,A1*y+B1,A1*x+C1,m0,m0,m1,m1,1e-3); if(t<0) return false; ty.push_back(t); }
  std::sort(ty.begin(),ty.end()); return true; }
static bool well_inside(const double (*u)[4],int n,bool dbl);
static std::string check_type(const Op&o,const Input&in,void**outs){ bool dbl=o.dbl; char b[500]; size_t r1=o.r1,r2=o.r2; bool bil=o.codec==C_BILIN;
  auto D=[&](int c,size_t i)->double{ return dbl?((double*)outs[c])[i]:((float*)outs[c])[i]; };
  for(size_t i=0;i+1<r1;i++) for(size_t j=0;j+1<r2;j++){ size_t p=i*r2+j;
    if(bil){ size_t id[4]={p,p+1,p+r2+1,p+r2}; double u[4],v[4],U[4],V[4]; for(int q=0;q<4;q++){ u[q]=in.d[0][id[q]]; v[q]=in.d[1][id[q]]; U[q]=D(0,id[q]); V[q]=D(1,id[q]); } int a=bilin_class(u,v),z=bilin_class(U,V); if(a!=z||a<=0){ if(a<0||z<0) sh->probes[P_DEG]++; continue; }
      std::vector<int> ta,tz; if(!bilin_types(u,v,ta)||!bilin_types(U,V,tz)||ta.size()!=(size_t)a||tz.size()!=(size_t)a){ sh->probes[P_DEG]++; continue; } sh->probes[P_CP]++; if(ta!=tz){ size_t w=0; while(ta[w]==tz[w]) w++; snprintf(b,sizeof b,"%s: critical point in cell (%zu,%zu) changes from %s to %s: u=(%.9g %.9g %.9g %.9g) v=(%.9g %.9g %.9g %.9g) restored u=(%.9g %.9g %.9g %.9g) v=(%.9g %.9g %.9g %.9g)",codec_name[o.codec],i,j,type_name(ta[w]),type_name(tz[w]),u[0],u[1],u[2],u[3],v[0],v[1],v[2],v[3],U[0],U[1],U[2],U[3],V[0],V[1],V[2],V[3]); return b; } continue; }
    for(int k=0;k<2;k++){ size_t id[3]={p,k?p+1:p+r2,p+r2+1}; double u[3],v[3],U[3],V[3]; for(int q=0;q<3;q++){ u[q]=in.d[0][id[q]]; v[q]=in.d[1][id[q]]; U[q]=D(0,id[q]); V[q]=D(1,id[q]); }
      if(tri_class(u,v,dbl)!=1||tri_class(U,V,dbl)!=1) continue; if(o.codec==C_RELAX){ double w[2][4]={{u[0],u[1],u[2],0},{v[0],v[1],v[2],0}}; if(!well_inside(w,3,dbl)){ sh->probes[P_DEG]++; continue; } } int a=tri_type(u,v,k,dbl),z=tri_type(U,V,k,dbl); if(a<0||z<0){ sh->probes[P_DEG]++; continue; } sh->probes[P_CP]++;
      if(a!=z){ snprintf(b,sizeof b,"%s: critical point in triangle %d of cell (%zu,%zu) changes from %s to %s: u=(%.9g %.9g %.9g) v=(%.9g %.9g %.9g) restored u=(%.9g %.9g %.9g) v=(%.9g %.9g %.9g)",codec_name[o.codec],k,i,j,type_name(a),type_name(z),u[0],u[1],u[2],v[0],v[1],v[2],U[0],U[1],U[2],V[0],V[1],V[2]); return b; } } }
  return ""; }
// ---- critical points in tetrahedra (3D): 1 inside, 0 none, -1 within rounding
static int det3_sign(const double*u,const double*v,const double*w,int a,int b,int c,bool dbl,bool&range){ Q t[6]={(Q)u[a]*v[b]*w[c],-(Q)u[a]*v[c]*w[b],(Q)u[b]*v[c]*w[a],-(Q)u[b]*v[a]*w[c],(Q)u[c]*v[a]*w[b],-(Q)u[c]*v[b]*w[a]}; Q s=0,m=0; for(Q x:t){ s+=x; m+=qabs(x); }
  if(!dbl&&m!=0&&(m<(Q)1e-30||m>(Q)1e36)) range=false; if(dbl&&m!=0&&(m<(Q)1e-280||m>(Q)1e290)) range=false; return rsign(s,m,dbl?(Q)1e-12:(Q)5e-5); }
static int tet_class(const double*u,const double*v,const double*w,bool dbl){ bool range=true; int s[4]={-det3_sign(u,v,w,1,2,3,dbl,range),det3_sign(u,v,w,0,2,3,dbl,range),-det3_sign(u,v,w,0,1,3,dbl,range),det3_sign(u,v,w,0,1,2,dbl,range)};
  if(!range) return -1; bool p=false,n=false,z=false; for(int x:s){ if(x>0) p=true; else if(x<0) n=true; else z=true; } if(p&&n) return 0; return z?-1:1; }
static std::string check_cp3(const Op&o,const Input&in,void**outs){ bool dbl=o.dbl; char b[700]; std::string err; auto D=[&](int c,size_t i)->double{ return dbl?((double*)outs[c])[i]:((float*)outs[c])[i]; };
  auto tet=[&](const size_t*id,const char*where)->bool{ double u[3][4],U[3][4]; for(int c=0;c<3;c++) for(int q=0;q<4;q++){ if(o.codec==C_3UNS){ u[c][q]=in.d[0][3*id[q]+c]; U[c][q]=D(0,3*id[q]+c); } else { u[c][q]=in.d[c][id[q]]; U[c][q]=D(c,id[q]); } }
    int a=tet_class(u[0],u[1],u[2],dbl),z=tet_class(U[0],U[1],U[2],dbl); if(a<0||z<0){ sh->probes[P_DEG]++; return true; } if(a>0) sh->probes[P_CP]++; if(a==z) return true;
    int n=snprintf(b,sizeof b,"%s: critical point %s in %s:",codec_name[o.codec],a?"lost":"invented",where); for(int c=0;c<3;c++) n+=snprintf(b+n,sizeof b-n," %c=(%.9g %.9g %.9g %.9g) restored (%.9g %.9g %.9g %.9g)","uvw"[c],u[c][0],u[c][1],u[c][2],u[c][3],U[c][0],U[c][1],U[c][2],U[c][3]); err=b; return false; };
  char wh[80]; if(o.codec==C_3UNS){ for(size_t t=0;t+3<in.tets.size();t+=4){ size_t id[4]; for(int q=0;q<4;q++) id[q]=in.tets[t+q]; snprintf(wh,sizeof wh,"tetrahedron %zu",t/4); if(!tet(id,wh)) return err; } return ""; }
  size_t r1=o.r1,r2=o.r2,r3=o.r3; static const int perm[6][3]={{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}}; size_t stp[3]={r2*r3,r3,1};
  for(size_t i=0;i+1<r1;i++) for(size_t j=0;j+1<r2;j++) for(size_t k=0;k+1<r3;k++) for(int n=0;n<6;n++){ size_t id[4]; id[0]=(i*r2+j)*r3+k; for(int q=0;q<3;q++) id[q+1]=id[q]+stp[perm[n][q]]; snprintf(wh,sizeof wh,"tetrahedron %d of cell (%zu,%zu,%zu)",n,i,j,k); if(!tet(id,wh)) return err; }
  return ""; }
template<class F> static void each_cell(const Op&o,const Input&in,F cell){ char wh[80]; size_t r1=o.r1,r2=o.r2,r3=o.r3,id[4]; 
  if(o.codec==C_3UNS){ for(size_t t=0;t+3<in.tets.size();t+=4){ for(int q=0;q<4;q++) id[q]=in.tets[t+q]; snprintf(wh,sizeof wh,"tetrahedron %zu",t/4); if(!cell(id,4,wh)) return; } return; }
  if(ci[o.codec].dim==3){ static const int perm[6][3]={{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}}; size_t stp[3]={r2*r3,r3,1}; for(size_t i=0;i+1<r1;i++) for(size_t j=0;j+1<r2;j++) for(size_t k=0;k+1<r3;k++) for(int n=0;n<6;n++){ id[0]=(i*r2+j)*r3+k; for(int q=0;q<3;q++) id[q+1]=id[q]+stp[perm[n][q]]; snprintf(wh,sizeof wh,"tetrahedron %d of cell (%zu,%zu,%zu)",n,i,j,k); if(!cell(id,4,wh)) return; } return; }
  for(size_t i=0;i+1<r1;i++) for(size_t j=0;j+1<r2;j++) for(int k=0;k<2;k++){ size_t p=i*r2+j; id[0]=p; id[1]=k?p+1:p+r2; id[2]=p+r2+1; snprintf(wh,sizeof wh,"triangle %d of cell (%zu,%zu)",k,i,j); if(!cell(id,3,wh)) return; } }
// ---- cells that hold a critical point are restored bit for bit (the modes that store them losslessly)
// the codecs that solve for barycentric coordinates in working precision see a critical point only when the coordinates are clear of that computation's rounding
static bool well_inside(const double (*u)[4],int n,bool dbl){ int nc=n-1; Q m=1; for(int c=0;c<nc;c++){ Q x=0; for(int q=0;q<n;q++) x=std::max(x,qabs(u[c][q])); m*=x; }
  Q w[4],s=0; for(int q=0;q<n;q++){ int id[3],k=0; for(int j=0;j<n;j++) if(j!=q) id[k++]=j; 
    if(nc==2) w[q]=(Q)u[0][id[0]]*u[1][id[1]]-(Q)u[0][id[1]]*u[1][id[0]]; else { w[q]=0; static const int pm[6][3]={{0,1,2},{1,2,0},{2,0,1},{0,2,1},{2,1,0},{1,0,2}}; for(int t=0;t<6;t++) w[q]+=(t<3?1:-1)*(Q)u[0][id[pm[t][0]]]*u[1][id[pm[t][1]]]*u[2][id[pm[t][2]]]; }
    w[q]=qabs(w[q]); s+=w[q]; }
  if(!dbl&&(m<(Q)1e-30||m>(Q)1e36)) return false; if(dbl&&(m<(Q)1e-280||m>(Q)1e290)) return false;
  Q tol=m*(dbl?(Q)2.2e-16:(Q)1.2e-7)*200; for(int q=0;q<n;q++) if(!(w[q]>tol)) return false; return true; }
static std::string check_exact(const Op&o,const Input&in,void**outs){ bool dbl=o.dbl; char b[400]; std::string err; bool three=ci[o.codec].dim==3||o.codec==C_3UNS; auto D=[&](int c,size_t i)->double{ return dbl?((double*)outs[c])[i]:((float*)outs[c])[i]; };
  auto cell=[&](const size_t*id,int n,const char*where)->bool{ double u[3][4]; for(int c=0;c<(three?3:2);c++) for(int q=0;q<n;q++) u[c][q]= o.codec==C_3UNS? in.d[0][3*id[q]+c] : in.d[c][id[q]]; int a= three? tet_class(u[0],u[1],u[2],dbl) : tri_class(u[0],u[1],dbl); if(a<0){ sh->probes[P_DEG]++; return true; } if(a==0) return true; if((o.codec==C_RELAX||o.codec==C_3ABS)&&!well_inside(u,n,dbl)){ sh->probes[P_DEG]++; return true; } sh->probes[P_CP]++;
    for(int c=0;c<(three?3:2);c++) for(int q=0;q<n;q++){ double y= o.codec==C_3UNS? D(0,3*id[q]+c) : D(c,id[q]); if(!(y==u[c][q])){ snprintf(b,sizeof b,"%s: %s holds a critical point, but component %d of its corner %d moves from %.9g to %.9g",codec_name[o.codec],where,c,q,u[c][q],y); err=b; return false; } } return true; };
  each_cell(o,in,cell); return err; }
static std::string check_cp(const Op&o,const Input&in,void**outs){ bool dbl=o.dbl; char b[400]; size_t r1=o.r1,r2=o.r2; bool relax=o.codec==C_RELAX; bool bil=o.codec==C_BILIN;
  auto D=[&](int c,size_t i)->double{ return dbl?((double*)outs[c])[i]:((float*)outs[c])[i]; };
  for(size_t i=0;i+1<r1;i++) for(size_t j=0;j+1<r2;j++){ size_t p=i*r2+j;
    if(bil){ size_t id[4]={p,p+1,p+r2+1,p+r2}; double u[4],v[4],U[4],V[4]; for(int q=0;q<4;q++){ u[q]=in.d[0][id[q]]; v[q]=in.d[1][id[q]]; U[q]=D(0,id[q]); V[q]=D(1,id[q]); } int a=bilin_class(u,v),z=bilin_class(U,V); if(a<0||z<0){ sh->probes[P_DEG]++; continue; } if(a>0) sh->probes[P_CP]++; if(a!=z){ snprintf(b,sizeof b,"%s: cell (%zu,%zu) has %d critical points before, %d after: u=(%.9g %.9g %.9g %.9g) v=(%.9g %.9g %.9g %.9g) restored u=(%.9g %.9g %.9g %.9g) v=(%.9g %.9g %.9g %.9g)",codec_name[o.codec],i,j,a,z,u[0],u[1],u[2],u[3],v[0],v[1],v[2],v[3],U[0],U[1],U[2],U[3],V[0],V[1],V[2],V[3]); return b; } continue; }
    for(int k=0;k<2;k++){ size_t id[3]={p,k?p+1:p+r2,p+r2+1}; double u[3],v[3],U[3],V[3]; for(int q=0;q<3;q++){ u[q]=in.d[0][id[q]]; v[q]=in.d[1][id[q]]; U[q]=D(0,id[q]); V[q]=D(1,id[q]); }
      int a=tri_class(u,v,dbl),z=tri_class(U,V,dbl); if(a<0||z<0){ sh->probes[P_DEG]++; continue; } if(a>0) sh->probes[P_CP]++;
      if(a!=z&&!(relax&&a==1&&z==0)){ snprintf(b,sizeof b,"%s: critical point %s in triangle %d of cell (%zu,%zu): u=(%.9g %.9g %.9g) v=(%.9g %.9g %.9g) restored u=(%.9g %.9g %.9g) v=(%.9g %.9g %.9g)",codec_name[o.codec],a?"lost":"invented",k,i,j,u[0],u[1],u[2],v[0],v[1],v[2],U[0],U[1],U[2],V[0],V[1],V[2]); return b; } } }
  return ""; }

// ================================================================ running one operation
struct Flags { bool mem=false; bool digest=true; bool bounds=false; };
static const char* st_name[8]={"compressed bytes","lossless bytes","bytes after lossless","restored component 0","restored component 1","restored component 2","log error bounds","cursor/size"};
static void setnote(OpRes&r,const char*s){ snprintf(r.note,sizeof r.note,"%s",s); }
static size_t block_size_of(void*p){ Block*b=heap_block(p); return b?b->size:(size_t)-1; }
static void check_size(const char*what,void*p,size_t n){ Block*b=heap_block(p); if(!b) { if(mem_fatal) violation("not-a-block","%s in op %d is not a heap block the caller could free",what,ctx.op); return; } if(n>b->size) violation("size-exceeds-buffer","%s: reported size %zu exceeds the returned buffer of %zu bytes (op %d)",what,n,b->size,ctx.op); }
static void st(OpRes&r,int k,const void*p,size_t n){ size_t bs=block_size_of((void*)p); if(n>bs) n=bs; r.st[k]=hash_bytes(p,n,77+n); r.digest=mix64(r.digest^r.st[k]*(k+1)); r.nst++; }
static void caller_free(void*p){ Sut s; free(p); }
// payload generator for lossless and huffman work
static std::vector<unsigned char> payload(const Op&o){ std::vector<unsigned char> v(o.n); Rng r(o.fseed); for(int64_t i=0;i<o.n;i++) switch(o.fk%5){ case 0: v[i]=r.next(); break; case 1: v[i]=(unsigned char)(i/7); break; case 2: v[i]=0; break; case 3: v[i]=r.chance(0.9)?65:r.next(); break; case 4: v[i]=(i&64)?r.next():3; break; } return v; }
static std::vector<int> symbols(const Op&o,int blk,size_t&states){ Rng r(o.fseed*1000003+blk*17); static const int al[8]={2,3,7,32,256,1024,32768,65536}; int a=al[(o.alpha+blk*(o.alpha>7?0:o.typ?r.below(8):0))%8]; if(o.alpha==8) a=1; states=2*(size_t)a;
  if(o.skew==6){ // code lengths as deep as possible: Fibonacci frequencies
    int d=6+(int)r.below(o.n>600?16:9); if(o.n>600&&blk==0&&r.chance(0.35)) { d=23+(int)r.below(9); if(a<32){ a=32; states=64; } } d=std::min(a,d); if(d<2) d=2; std::vector<int> sym; { std::set<int> u; while((int)u.size()<std::min(a,d)) u.insert(r.below(a)); sym.assign(u.begin(),u.end()); for(size_t i=sym.size();i>1;i--) std::swap(sym[i-1],sym[r.below(i)]); }
    std::vector<int> v; size_t f0=1,f1=1; for(int x:sym){ for(size_t k=0;k<f0;k++) v.push_back(x); size_t t=f0+f1; f0=f1; f1=t; } if(r.chance(0.7)) for(size_t i=v.size();i>1;i--) std::swap(v[i-1],v[r.below(i)]); return v; }
  if(o.skew==7){ // an exact number of distinct symbols, near the sizes at which the tree layout changes
    static const int ds[]={1,2,3,4,127,128,129,130,255,256,257,258}; int d=ds[r.below(12)]; if(o.n>600&&r.chance(0.15)) d=32766+r.below(5); if(d>a/2){ a=d<=256?512:65536; states=2*(size_t)a; } std::vector<int> v; int first=r.below(a-d+1); for(int i=0;i<d;i++) v.push_back(first+i); size_t extra=r.below(o.n+1); for(size_t i=0;i<extra;i++) v.push_back(first+r.below(d)); for(size_t i=v.size();i>1;i--) std::swap(v[i-1],v[r.below(i)]); return v; }
  size_t n=o.n>1?1+r.below(o.n):1; if(o.share>0&&r.chance(0.06)) n=0; std::vector<int> v(n); int base=r.below(a); for(auto&x:v) switch(o.skew){ case 0: x=r.below(a); break; case 1: x=base; break; case 2: { int d=(int)(r.sym()*r.uni()*r.uni()*8); x=std::min(a-1,std::max(0,base+d)); break; } case 3: { int k=0; while(k<30&&r.chance(0.5)) k++; x=(base+k*k)%a; break; } case 4: x=r.chance(0.97)?base:(int)r.below(a); break; default: { double z=r.uni(); x=(int)(a*z*z*z*z); if(x>=a) x=a-1; } } return v; }
static void huff_op(const Op&o,OpRes&r,bool viol){ // back-to-back sections in one stream
  int nb=(int)std::max<int64_t>(1,o.share+1); std::vector<std::vector<int>> sy; std::vector<size_t> stt; size_t cap=64; for(int b=0;b<nb;b++){ size_t s; sy.push_back(symbols(o,b,s)); stt.push_back(s); cap+=sy.back().size()*8+s*16+1024; }
  unsigned char*buf=(unsigned char*)heap_alloc(cap,-2); heap_protect(buf,true); unsigned char*pos=buf; std::vector<size_t> ends; std::vector<int> isbits; Rng rb(o.fseed+3);
  std::vector<std::vector<unsigned char>> bits;
  for(int b=0;b<nb;b++){ if(o.ind&&b%2==1&&!sy[b].empty()){ std::vector<unsigned char> bt(sy[b].size()); for(auto&x:bt) x=rb.below(2); void*t=heap_alloc(bt.size(),-2); memcpy(t,bt.data(),bt.size()); { Sut s; glue_bits_enc((unsigned char*)t,bt.size(),pos); } heap_release(t); bits.push_back(bt); isbits.push_back(1); }
    else { int*t=(int*)heap_alloc(sy[b].size()*4,-2); memcpy(t,sy[b].data(),sy[b].size()*4); { Sut s; glue_huff_enc(stt[b],t,sy[b].size(),pos); } heap_release(t); bits.push_back({}); isbits.push_back(0); }
    ends.push_back(pos-buf); std::set<int> ds(sy[b].begin(),sy[b].end()); if(ds.size()==1) probe(P_ONESYM); if(ds.size()>2000) probe(P_BIGAL); }
  size_t total=pos-buf; r.size=total; if(total>cap) violation("stream-overrun","encoder wrote %zu bytes into room for %zu",total,cap); st(r,0,buf,0); r.st[0]=hash_bytes(buf,total); r.digest=mix64(r.digest^r.st[0]);
  // decode from an exact copy of the stream
  unsigned char*cp=(unsigned char*)heap_alloc(total,-2); memcpy(cp,buf,total); heap_protect(cp,true); const unsigned char*q=cp; uint64_t dd=0;
  for(int b=0;b<nb;b++){ size_t n=sy[b].size(); bool bad=false; size_t at=0; long got=0,want=0;
    if(isbits[b]){ unsigned char*d; { Sut s; d=glue_bits_dec(n,q); } if(!d){ setnote(r,"null result"); r.state=O_NULL; return; } for(size_t i=0;i<n;i++) if(d[i]!=bits[b][i]){ bad=true; at=i; got=d[i]; want=bits[b][i]; break; } dd=hash_bytes(d,n,dd); caller_free(d); }
    else { int*d; { Sut s; d=glue_huff_dec(stt[b],n,q); } if(!d&&n){ setnote(r,"null result"); r.state=O_NULL; return; } for(size_t i=0;i<n;i++) if(d[i]!=sy[b][i]){ bad=true; at=i; got=d[i]; want=sy[b][i]; break; } if(n) dd=hash_bytes(d,n*4,dd); caller_free(d); }
    if(viol&&bad) violation("symbols-differ","section %d (%s, %zu symbols, alphabet %zu): symbol %zu decoded as %ld, was %ld",b,isbits[b]?"bits":"huffman",n,stt[b]/2,at,got,want);
    if(viol&&(size_t)(q-cp)!=ends[b]) violation("cursor","section %d (%s): decoder cursor at %zu, section ends at %zu",b,isbits[b]?"bits":"huffman",(size_t)(q-cp),ends[b]); }
  r.st[1]=dd; r.st[7]=q-cp; r.digest=mix64(r.digest^dd^(uint64_t)(q-cp)); r.nst+=2; r.state=O_OK; heap_protect(buf,false); heap_release(buf); heap_protect(cp,false); heap_release(cp); probe(P_HUF); }
static void lossless_op(const Op&o,OpRes&r,bool viol){ std::vector<unsigned char> pl=payload(o); unsigned char*in=(unsigned char*)heap_alloc(pl.size(),-2); memcpy(in,pl.data(),pl.size()); heap_protect(in,true);
  unsigned char*z=nullptr; size_t zn; { Sut s; zn=glue_lossless_c(in,pl.size(),&z,o.level); } if(!z){ r.state=O_NULL; setnote(r,"null result"); heap_protect(in,false); heap_release(in); return; }
  if(mem_fatal) check_size("lossless output",z,zn); if(zn>block_size_of(z)){ r.state=O_OK; r.digest=0xBAD; setnote(r,"size larger than the buffer"); caller_free(z); heap_protect(in,false); heap_release(in); return; } st(r,1,z,zn); r.size=zn;
  unsigned char*zc=(unsigned char*)heap_alloc(zn,-2); memcpy(zc,z,zn); caller_free(z); heap_protect(zc,true); unsigned char*u=nullptr; size_t un; { Sut s; un=glue_lossless_d(zc,zn,&u,pl.size()); }
  if(!u){ r.state=O_NULL; setnote(r,"null result"); } else { st(r,2,u,un); if(viol&&(un!=pl.size()||memcmp(u,pl.data(),un))) violation("lossless-differs","%zu bytes in, %zu bytes out, content %s",pl.size(),(size_t)un,un==pl.size()?"differs":"of different length"); caller_free(u); r.state=O_OK; }
  if(viol&&glue_is_lossless(zc,zn)<0) violation("lossless-unrecognised","a fresh artefact of %zu bytes is not recognised as compressed",zn);
  heap_protect(zc,false); heap_release(zc); heap_protect(in,false); heap_release(in); probe(P_LL); }
// compress -> lossless -> lossless^-1 -> decompress, with the caller freeing what it is handed
static void chain_op(const Op&o,const Input&in,Live&l,OpRes&r,const Flags&f,const BlobRef*pre){
  Req q=l.q; size_t size=0; unsigned char*c=nullptr;
  if(o.kind!=K_D){ { Sut s; c=glue_compress(q,size); } if(!c){ r.state=O_NULL; setnote(r,"null result"); return; }
    if(f.mem) check_size("compressed output",c,size); if(size>block_size_of(c)){ r.digest=0xBAD; r.state=O_OK; setnote(r,"size larger than the buffer"); return; } st(r,0,c,size); r.size=size; if(size>nelem(o)*in.nc*(o.dbl?8:4)/2) probe(P_INC);
    if(q.logebs){ st(r,6,q.logebs,in.n*8); }
    if(pre==nullptr&&sh->op[ctx.op<0?0:ctx.op].c.len==0&&ctx.op>=0){ sh->op[ctx.op].c=blob_put(c,size); }
    if(o.kind==K_C||o.codec==C_3DEB){ caller_free(c); if(q.logebs) caller_free(q.logebs); r.state=O_OK; return; } 
    unsigned char*z=nullptr; size_t zn; { Sut s; zn=glue_lossless_c(c,size,&z,o.level); } if(!z){ r.state=O_NULL; setnote(r,"null result"); caller_free(c); if(q.logebs) caller_free(q.logebs); return; }
    if(f.mem) check_size("lossless output",z,zn); if(zn>block_size_of(z)){ r.digest=0xBAD; r.state=O_OK; setnote(r,"size larger than the buffer"); caller_free(c); caller_free(z); return; } st(r,1,z,zn);
    caller_free(c); c=nullptr; size_t un; { Sut s; un=glue_lossless_d(z,zn,&c,size); } caller_free(z); if(!c){ r.state=O_NULL; setnote(r,"null result"); if(q.logebs) caller_free(q.logebs); return; } st(r,2,c,un); if(un!=size) r.digest=0xBAD; }
  else { size=pre->len; c=(unsigned char*)heap_alloc(size,-2); memcpy(c,blobs+pre->off,size); heap_protect(c,true); }
  Req dq=q; std::vector<double> le; if(q.logebs) dq.ebs=q.logebs; void*outs[3]={0,0,0}; int no=ci[o.codec].group>=2&&o.codec!=C_3UNS?ci[o.codec].nc:0; if(o.codec==C_3UNS) no=1;
  if(o.prealloc&&no){ probe(P_PRE); size_t nb=nelem(o)*(o.dbl?8:4); for(int k=0;k<no;k++) if(o.prealloc==1||(o.prealloc==2)==(k==0)){ Sut s; outs[k]=malloc(nb); if(!outs[k]){ r.state=O_NULL; return; } } }
  int n; { Sut s; n=glue_decompress(dq,c,outs); }
  if(o.kind==K_D){ heap_protect(c,false); heap_release(c); probe(P_DEC); } else { caller_free(c); probe(P_RT); }
  bool nul=false; for(int k=0;k<n;k++) if(!outs[k]) nul=true;
  if(nul){ r.state=O_NULL; setnote(r,"null result"); for(int k=0;k<n;k++) if(outs[k]) caller_free(outs[k]); if(q.logebs) caller_free(q.logebs); return; }
  size_t nb=in.n*(o.dbl?8:4); for(int k=0;k<n;k++){ if(f.mem) check_size("restored array",outs[k],nb); st(r,3+k,outs[k],nb); }
  for(int k=0;k<n;k++) caller_free(outs[k]); if(q.logebs) caller_free(q.logebs); r.state=O_OK; }
static void run_op(int idx,const Op&o,const Input&in,Live&l,OpRes&r,const Flags&f,const BlobRef*pre,uint32_t stackpat){
  ctx.op=idx; ctx.in_sut=false; alloc_index=0; r.state=O_NONE; r.digest=1; r.nst=0; for(auto&x:r.st) x=0; sh->cur_op=idx; uint64_t a0=sh->allocs;
  if(stackpat) paint_stack(stackpat);
  try { if(o.kind==K_H) huff_op(o,r,false); else if(o.kind==K_L) lossless_op(o,r,false); else chain_op(o,in,l,r,f,pre); }
  catch(const std::exception&e){ ctx.in_sut=false; r.state=O_EXC; snprintf(r.note,sizeof r.note,"exception %s",e.what()); }
  catch(...){ ctx.in_sut=false; r.state=O_EXC; setnote(r,"exception"); }
  ctx.in_sut=false; r.allocs=sh->allocs-a0; logev(r.digest^idx); ctx.op=-1; }

// ================================================================ children
struct Child { int outcome=O_OK; int sig=0; int code=0; };
static std::string child_desc(const Child&c){ char b[80]; switch(c.outcome){ case O_OK: return "finished"; case O_EXIT: snprintf(b,sizeof b,"stopped with exit(%d)",c.code); return b; case O_SIGNAL: snprintf(b,sizeof b,"died from signal %d",c.sig); return b; case O_KILLED: return "killed by the simulator"; case O_HANG: return "used up its CPU time"; case O_VIOL: return "violation"; default: return "?"; } }
template<class F> static Child run_child(Stats&stt,uint64_t&hash,F body,int capfd=-1){
  sh->viol=0; sh->exited=0; sh->killed=0; sh->cur_op=-1; sh->loghash=1; sh->steps=sh->switches=sh->hot=sh->allocs=sh->frees=sh->allocfail=sh->simns=0; sh->schedhash=0; sh->nsched=0; memset(sh->faultfired,0,sizeof sh->faultfired); memset(sh->probes,0,sizeof sh->probes);
  fflush(stdout); pid_t p=fork(); if(p<0){ perror("fork"); _exit(90); }
  if(p==0){ int fd=capfd>=0?capfd:(int)syscall(SYS_openat,AT_FDCWD,"/dev/null",O_WRONLY); dup2(fd,1); dup2(fd,2); struct rlimit rl={60,61}; setrlimit(RLIMIT_CPU,&rl); struct rlimit rc={0,0}; setrlimit(RLIMIT_CORE,&rc);
    body(); ctx.in_sut=false; fflush(stdout); sh->steps=g_step>sh->steps?g_step:sh->steps; syscall(SYS_exit_group,0); }
  int s=0; while(waitpid(p,&s,0)<0&&errno==EINTR){} Child c; if(WIFEXITED(s)){ int e=WEXITSTATUS(s); if(e==0) c.outcome=O_OK; else if(e==42) c.outcome=O_VIOL; else if(e==43) c.outcome=O_KILLED; else if(e==45){ c.outcome=O_EXIT; c.code=sh->exitcode; } else if(e>=90&&e<=98){ fprintf(stderr,"harness failure %d\n",e); _exit(e); } else { c.outcome=O_EXIT; c.code=e; } }
  else { c.sig=WTERMSIG(s); c.outcome=c.sig==SIGXCPU||c.sig==SIGKILL?O_HANG:O_SIGNAL; }
  stt.children++; stt.steps+=sh->steps; stt.switches+=sh->switches; stt.hot+=sh->hot; stt.allocs+=sh->allocs; stt.frees+=sh->frees; stt.simns+=sh->simns; for(int i=0;i<F_KINDS;i++) stt.fired[i]+=sh->faultfired[i]; for(int i=0;i<64;i++) stt.probes[i]+=sh->probes[i];
  hash=mix64(hash^sh->loghash)^(c.outcome*1315423911ull)^(c.sig*77)^(c.code*131)^mix64(sh->steps); return c; }
static Env solo_env(){ Env e; e.fill=3; e.seed=99; return e; }
static std::string op_brief(const Op&o){ char b[200]; if(o.kind==K_H) snprintf(b,sizeof b,"huffman(alphabet class %d, skew %d, %d sections)",(int)o.alpha,(int)o.skew,(int)o.share+1); else if(o.kind==K_L) snprintf(b,sizeof b,"lossless(%d bytes)",(int)o.n); else snprintf(b,sizeof b,"%s %s<%s> %dx%dx%d field=%s eb=%.3g",kind_name[o.kind],codec_name[o.codec],o.dbl?"double":"float",(int)o.r1,(int)o.r2,(int)o.r3,field_name[o.fk%NFIELD],o.eb); return b; }

// one operation alone in a fresh process
static Child solo(const Op&o,int idx,OpRes&out,Stats&stt,uint64_t&h,const Env&e,const std::vector<Fault>*fl=nullptr,const BlobRef*pre=nullptr,uint64_t budget=STEPCAP){
  memset(&sh->op[idx],0,sizeof(OpRes));
  Child c=run_child(stt,h,[&]{ env_begin(e); faults_set(fl?*fl:std::vector<Fault>()); step_budget(budget); Input in; Live l; if(o.kind<=K_D){ in=make_input(o); materialise(o,in,l,o.kind!=K_D); } Flags f; run_op(idx,o,in,l,sh->op[idx],f,pre,e.stack); });
  out=sh->op[idx]; return c; }
static void fill_viol(RunResult&rr,const char*pfx=""){ rr.viol=true; rr.cls=sh->vclass; rr.msg=std::string(pfx)+sh->vmsg; }
static void set_viol(RunResult&rr,const std::string&cls,const std::string&msg){ rr.viol=true; rr.cls=cls; rr.msg=msg; }
static bool same_op(const Op&a,const Op&b){ Op x=a,y=b; x.thread=y.thread=0; x.ep=y.ep=0; if(x.kind!=K_H){ x.share=y.share=0; } return op_text(x)==op_text(y); }

// baselines for a list of operations; false if some operation does not even work alone
static bool baselines(const Plan&p,std::vector<OpRes>&base,std::vector<BlobRef>&pre,RunResult&rr,bool need=true){
  sh->blob_used=0; base.assign(p.ops.size(),OpRes()); pre.assign(p.ops.size(),BlobRef());
  for(size_t i=0;i<p.ops.size();i++){ bool dup=false; for(size_t j=0;j<i;j++) if(same_op(p.ops[i],p.ops[j])){ base[i]=base[j]; pre[i]=pre[j]; dup=true; break; } if(dup) continue;
    Op o=p.ops[i]; if(o.kind==K_D){ Op c=o; c.kind=K_C; OpRes r; Child ch=solo(c,i,r,rr.st,rr.hash,solo_env()); if(ch.outcome!=O_OK||r.state!=O_OK||r.c.len==0){ rr.invalid=true; rr.msg="producer "+op_brief(c)+": "+child_desc(ch)+" "+r.note; return false; } pre[i]=r.c; }
    if(!need) continue;
    Child ch=solo(o,i,base[i],rr.st,rr.hash,solo_env(),nullptr,&pre[i]); if(ch.outcome!=O_OK||base[i].state!=O_OK){ rr.invalid=true; rr.msg="alone: "+op_brief(o)+": "+child_desc(ch)+(ch.outcome==O_VIOL?std::string(" ")+sh->vmsg:"")+" "+base[i].note; return false; } }
  return true; }
static std::string diff_desc(const OpRes&a,const OpRes&b){ for(int k=0;k<8;k++) if(a.st[k]!=b.st[k]) return st_name[k]; return "results"; }
static void record(RunResult&rr,int ep){ auto&l=rr.lists[ep]; l.clear(); for(uint64_t i=0;i<sh->nsched;i++) l.push_back({sh->sched[i].step,sh->sched[i].t}); }
static SchedCfg cfg_for(const Plan&p,int ep,uint64_t budget){ SchedCfg c=p.sched; c.budget=budget; if(p.replay){ c.replay=true; auto i=p.lists.find(ep); if(i!=p.lists.end()) c.list=i->second; } else c.seed=mix64(p.sched.seed+ep*1000003); return c; }

// ---------------------------------------------------------------- C01
static RunResult run_conc(const Plan&p){ RunResult rr; std::vector<OpRes> base; std::vector<BlobRef> pre; if(!baselines(p,base,pre,rr)) return rr; uint64_t bsteps=rr.st.steps;
  for(size_t i=0;i<p.ops.size();i++) memset(&sh->op[i],0,sizeof(OpRes));
  std::vector<OpRes> res; int nt=0; for(auto&o:p.ops) nt=std::max(nt,(int)o.thread+1);
  Child c=run_child(rr.st,rr.hash,[&]{ env_begin(p.env); faults_set(p.faults); std::vector<Input> in(p.ops.size()); std::vector<Live> l(p.ops.size());
    for(size_t i=0;i<p.ops.size();i++){ const Op&o=p.ops[i]; if(o.kind>K_D) continue; in[i]=make_input(o); bool sharedin=false; if(o.share) for(size_t j=0;j<i;j++){ const Op&b=p.ops[j]; if(b.kind<=K_C&&o.kind<=K_C&&b.fk==o.fk&&b.fseed==o.fseed&&b.r1==o.r1&&b.r2==o.r2&&b.r3==o.r3&&b.dbl==o.dbl&&b.amp==o.amp&&ci[b.codec].nc==ci[o.codec].nc&&ci[b.codec].dim==ci[o.codec].dim&&!ci[o.codec].ebs&&o.codec!=C_3UNS){ l[i]=l[j]; mk_req(o,l[i].q); for(int k=0;k<3;k++) l[i].q.in[k]=l[j].q.in[k]; sharedin=true; probe(P_SHI); break; } } if(!sharedin) materialise(o,in[i],l[i],o.kind!=K_D); }
    std::vector<std::function<void()>> th; for(int t=0;t<nt;t++) th.push_back([&,t]{ for(size_t i=0;i<p.ops.size();i++) if(p.ops[i].thread==t){ Flags f; run_op(i,p.ops[i],in[i],l[i],sh->op[i],f,&pre[i],p.env.stack); } });
    sched_run(th,cfg_for(p,0,bsteps*20+5000000)); });
  record(rr,0); rr.sig=sh->schedhash; rr.nontrivial=sh->switches>=2;
  if(c.outcome==O_VIOL){ fill_viol(rr); return rr; }
  if(c.outcome!=O_OK){ set_viol(rr,c.outcome==O_HANG?"no-progress":"stopped",child_desc(c)+" while concurrent callers were active (operation "+std::to_string(sh->cur_op)+": "+(sh->cur_op>=0?op_brief(p.ops[sh->cur_op]):"")+")"); return rr; }
  for(size_t i=0;i<p.ops.size();i++){ OpRes&r=sh->op[i]; if(r.state!=base[i].state){ set_viol(rr,"concurrent-outcome","operation "+std::to_string(i)+" ("+op_brief(p.ops[i])+") ended as '"+r.note+"' among concurrent callers, but succeeds alone"); return rr; }
    if(r.digest!=base[i].digest){ set_viol(rr,"concurrent-result","operation "+std::to_string(i)+" ("+op_brief(p.ops[i])+"): "+diff_desc(r,base[i])+" differ from the same call running alone"); return rr; } }
  return rr; }
// ---------------------------------------------------------------- C02
static RunResult run_hist(const Plan&p){ RunResult rr; std::vector<OpRes> base; std::vector<BlobRef> pre; if(!baselines(p,base,pre,rr)) return rr;
  for(size_t i=0;i<p.ops.size();i++) memset(&sh->op[i],0,sizeof(OpRes));
  Child c=run_child(rr.st,rr.hash,[&]{ env_begin(p.env); faults_set(p.faults); step_budget(STEPCAP); for(size_t i=0;i<p.ops.size();i++){ const Op&o=p.ops[i]; Input in; Live l; if(o.kind<=K_D){ in=make_input(o); materialise(o,in,l,o.kind!=K_D); } Flags f; run_op(i,o,in,l,sh->op[i],f,&pre[i],p.env.stack?p.env.stack+i:0); release_live(l); } if(p.ops.size()>=3) probe(P_H3); });
  rr.nontrivial=p.ops.size()>1||p.env.fill!=3||p.env.place; rr.sig=hash_str(plan_text(p));
  if(c.outcome==O_VIOL){ fill_viol(rr); return rr; }
  if(c.outcome!=O_OK){ set_viol(rr,"stopped",child_desc(c)+" in operation "+std::to_string(sh->cur_op)+" ("+(sh->cur_op>=0?op_brief(p.ops[sh->cur_op]):"")+") which works in a fresh process"); return rr; }
  for(size_t i=0;i<p.ops.size();i++){ OpRes&r=sh->op[i]; if(r.state!=base[i].state){ set_viol(rr,"history-outcome","operation "+std::to_string(i)+" ("+op_brief(p.ops[i])+") ended as '"+r.note+"', but succeeds in a fresh process"); return rr; }
    if(r.digest!=base[i].digest){ set_viol(rr,"history-result","operation "+std::to_string(i)+" ("+op_brief(p.ops[i])+"): "+diff_desc(r,base[i])+" differ from a fresh process in another environment"); return rr; } }
  return rr; }
// ---------------------------------------------------------------- C03
static RunResult run_mem(const Plan&p){ RunResult rr; std::vector<OpRes> base; std::vector<BlobRef> pre; 
  bool anyd=false; for(auto&o:p.ops) if(o.kind==K_D) anyd=true; sh->blob_used=0; pre.assign(p.ops.size(),BlobRef()); if(anyd){ if(!baselines(p,base,pre,rr,false)) return rr; }
  for(size_t i=0;i<p.ops.size();i++) memset(&sh->op[i],0,sizeof(OpRes));
  Child c=run_child(rr.st,rr.hash,[&]{ env_begin(p.env); faults_set(p.faults); step_budget(STEPCAP); mem_fatal=true; for(size_t i=0;i<p.ops.size();i++){ const Op&o=p.ops[i]; Input in; Live l; if(o.kind<=K_D){ in=make_input(o); materialise(o,in,l,o.kind!=K_D); } Flags f; f.mem=true; run_op(i,o,in,l,sh->op[i],f,&pre[i],p.env.stack); if(live_digest(l)!=l.dig) violation("input-modified","operation %d (%s) changed one of its input arrays",(int)i,op_brief(o).c_str()); release_live(l); } });
  rr.nontrivial=true; rr.sig=hash_str(plan_text(p)); if(c.outcome==O_VIOL){ fill_viol(rr); if(sh->cur_op>=0&&sh->cur_op<(int)p.ops.size()) rr.msg+=" ["+op_brief(p.ops[sh->cur_op])+"]"; return rr; }
  if(c.outcome==O_SIGNAL){ set_viol(rr,"stray-access",child_desc(c)+" in operation "+std::to_string(sh->cur_op)+" ("+(sh->cur_op>=0?op_brief(p.ops[sh->cur_op]):"")+")"); return rr; }
  if(c.outcome!=O_OK){ rr.invalid=true; rr.msg=child_desc(c); }
  return rr; }
// ---------------------------------------------------------------- C04
static RunResult run_leak(const Plan&p){ RunResult rr; std::vector<OpRes> base; std::vector<BlobRef> pre; if(!baselines(p,base,pre,rr,false)) return rr; int R=(int)p.p("rounds",4);
  for(size_t i=0;i<p.ops.size();i++) memset(&sh->op[i],0,sizeof(OpRes));
  Child c=run_child(rr.st,rr.hash,[&]{ env_begin(p.env); faults_set(p.faults); step_budget(STEPCAP); mem_fatal=true; std::vector<size_t> ln,lb; uint64_t mark=0; for(int r=0;r<R;r++){ if(r==R-1) mark=heap_seq(); for(size_t i=0;i<p.ops.size();i++){ const Op&o=p.ops[i]; Input in; Live l; if(o.kind<=K_D){ in=make_input(o); materialise(o,in,l,o.kind!=K_D); } Flags f; 
          // in this world only the ownership rules are fatal
          run_op(i,o,in,l,sh->op[i],f,&pre[i],0); if(sh->op[i].state!=O_OK) violation("unexpected-failure","operation %d ended with %s",(int)i,sh->op[i].note); release_live(l); } ln.push_back(heap_live_blocks()); lb.push_back(heap_live_bytes()); }
      logev(ln[R-1]); bool grow=true; for(int r=1;r<R;r++) if(!(ln[r]>ln[r-1])) grow=false; if(!grow){ grow=true; for(int r=1;r<R;r++) if(!(lb[r]>lb[r-1])) grow=false; }
      probe(P_LEAK); if(grow) violation("leak","live heap grows every round: %zu -> %zu -> %zu blocks (%zu bytes per round); still live after the last round: %s",ln[0],ln[1],ln[R-1],lb[R-1]-lb[R-2],heap_describe_live(mark).c_str()); });
  rr.nontrivial=true; rr.sig=hash_str(plan_text(p)); 
  if(c.outcome==O_VIOL){ std::string v=sh->vclass; if(v=="unexpected-failure"||v=="no-progress"){ rr.invalid=true; rr.msg=sh->vmsg; return rr; } fill_viol(rr); return rr; }
  if(c.outcome!=O_OK){ rr.invalid=true; rr.msg=child_desc(c); }
  return rr; }
// ---------------------------------------------------------------- C05
static RunResult run_oom(const Plan&p){ RunResult rr; std::vector<OpRes> base; std::vector<BlobRef> pre; if(!baselines(p,base,pre,rr)) return rr;
  std::vector<Fault> fl=p.faults; for(auto&f:fl) if(p.p("pct",0)&&f.kind!=F_ALLOC_SIZE&&f.op>=0&&f.op<(int)base.size()){ int64_t N=base[f.op].allocs?base[f.op].allocs:1; f.n=1+(f.n%N); }
  for(size_t i=0;i<p.ops.size();i++) memset(&sh->op[i],0,sizeof(OpRes));
  Child c=run_child(rr.st,rr.hash,[&]{ env_begin(p.env); faults_set(fl); step_budget(STEPCAP); for(size_t i=0;i<p.ops.size();i++){ const Op&o=p.ops[i]; Input in; Live l; if(o.kind<=K_D){ in=make_input(o); materialise(o,in,l,o.kind!=K_D); } Flags f; run_op(i,o,in,l,sh->op[i],f,&pre[i],p.env.stack); } });
  uint64_t fired=sh->faultfired[F_ALLOC_ONCE]+sh->faultfired[F_ALLOC_FROM]+sh->faultfired[F_ALLOC_SIZE]; rr.nontrivial=fired>0; { std::string s; for(auto&o:p.ops) s+=op_text(o); for(auto&f:fl) s+=std::to_string(f.kind*1000003+f.n); rr.sig=hash_str(s); }
  if(c.outcome==O_SIGNAL||c.outcome==O_EXIT){ rr.st.probes[P_OV]++; return rr; } // visible stop
  if(c.outcome==O_VIOL||c.outcome==O_HANG){ if(c.outcome==O_VIOL) fill_viol(rr); else set_viol(rr,"no-progress","never returns after a refused allocation"); return rr; }
  for(size_t i=0;i<p.ops.size();i++){ OpRes&r=sh->op[i]; if(r.state!=O_OK){ rr.st.probes[P_OV]++; continue; } if(r.digest!=base[i].digest){ std::string w=r.note[0]?r.note:diff_desc(r,base[i]); set_viol(rr,"silent-wrong-result","operation "+std::to_string(i)+" ("+op_brief(p.ops[i])+") returned normally after a refused allocation, but with wrong "+w); return rr; } rr.st.probes[P_OS]++; }
  return rr; }
// ---------------------------------------------------------------- C21: every call ends, its work and memory in proportion to its data
static double work_units(const Op&o){ if(o.kind==K_H){ double n=0,k=0; for(int b=0;b<=o.share;b++){ size_t s; n+=symbols(o,b,s).size(); k+=s; } return n+k; } if(o.kind==K_L) return o.n; double n=(double)nelem(o)*ci[o.codec].nc; if(o.codec==C_3UNS) n+=8.0*std::max<int64_t>(1,o.n); return n; }
static RunResult run_work(const Plan&p){ RunResult rr; std::vector<OpRes> base; std::vector<BlobRef> pre; bool anyd=false; for(auto&o:p.ops) if(o.kind==K_D) anyd=true; sh->blob_used=0; pre.assign(p.ops.size(),BlobRef()); if(anyd&&!baselines(p,base,pre,rr,false)) return rr;
  for(size_t i=0;i<p.ops.size();i++) memset(&sh->op[i],0,sizeof(OpRes));
  Child c=run_child(rr.st,rr.hash,[&]{ env_begin(p.env); faults_set(p.faults); for(size_t i=0;i<p.ops.size();i++){ const Op&o=p.ops[i]; Input in; Live l; if(o.kind<=K_D){ in=make_input(o); materialise(o,in,l,o.kind!=K_D); } Flags f; double u=work_units(o);
      uint64_t s0=g_step,m0=heap_live_bytes(); sh->maxlive=m0; step_budget((uint64_t)(WORK_A+WORK_B*u)); charge_bytes=true; run_op(i,o,in,l,sh->op[i],f,&pre[i],p.env.stack); charge_bytes=false; uint64_t ds=g_step-s0,dm=sh->maxlive-m0; step_budget(0); if(getenv("SIMCP_WORK")) if(FILE*wf=fopen("/tmp/exp/work.txt","a")) { fprintf(wf,"WORK %.3f %s\n",ds/(WORK_A+WORK_B*u),op_brief(o).c_str()); fclose(wf); }
      if(dm>MEM_A+MEM_B*u) violation("memory","operation %d used %llu bytes of memory for %.0f values",(int)i,(unsigned long long)dm,u); logev(ds); logev(dm); release_live(l); } });
  rr.nontrivial=true; rr.sig=hash_str(plan_text(p)); std::string at=sh->cur_op>=0&&sh->cur_op<(int)p.ops.size()?op_brief(p.ops[sh->cur_op]):"";
  if(c.outcome==O_VIOL){ std::string v=sh->vclass; fill_viol(rr); rr.msg+=" ("+at+")"; return rr; }
  if(c.outcome==O_HANG) set_viol(rr,"no-progress","never returns ("+at+")");
  return rr; }
// ---------------------------------------------------------------- C13
static RunResult run_stream(const Plan&p){ RunResult rr; int nt=0; for(auto&o:p.ops) nt=std::max(nt,(int)o.thread+1); for(size_t i=0;i<p.ops.size();i++) memset(&sh->op[i],0,sizeof(OpRes));
  Child c=run_child(rr.st,rr.hash,[&]{ env_begin(p.env); faults_set(p.faults); std::vector<std::function<void()>> th; for(int t=0;t<nt;t++) th.push_back([&,t]{ for(size_t i=0;i<p.ops.size();i++) if(p.ops[i].thread==t){ ctx.op=i; sh->cur_op=i; paint_stack(p.env.stack); try{ huff_op(p.ops[i],sh->op[i],true); }catch(...){ ctx.in_sut=false; violation("stopped","exception in a coder"); } logev(sh->op[i].digest); } }); sched_run(th,cfg_for(p,0,STEPCAP)); });
  record(rr,0); rr.sig=hash_str(plan_text(p))^sh->schedhash; rr.nontrivial=true; if(c.outcome==O_VIOL){ fill_viol(rr); return rr; } if(c.outcome!=O_OK) set_viol(rr,"stopped",child_desc(c)+" in a coder (operation "+std::to_string(sh->cur_op)+")"); return rr; }
// ---------------------------------------------------------------- C06 C07 C08 C14: archive histories
static void fname(const Op&o,char*b){ snprintf(b,32,"/arch/f%d",(int)o.n%8); }
// ---- C15: sizes of archives. Limits have a margin over everything seen on the repaired tree (see DESIGN.md)
static std::string cur_prop;
static bool smooth_loose(const Op&o,const Input&in,double&limit){ int f=o.fk%NFIELD,g=ci[o.codec].group; if(f!=0&&f!=4&&f!=8) return false; if(in.n<900||ci[o.codec].ebs||o.codec==C_3UNS||o.codec==C_BILIN) return false;
  bool three=ci[o.codec].dim==3; int mn=three?8:16; if(o.r1<mn||o.r2<mn||(three&&o.r3<mn)) return false; if((g<2)&&o.bs&&o.bs<4) return false; bool rel=!(g==0||g==3||g==5); double e= rel? o.eb : o.eb/o.amp; if(e<0.05||e>0.5) return false;
  if(three&&g>=2&&f!=8) return false; limit= g<2? SZ_BLOCK : three? SZ_CP3 : rel? SZ_CP2 : SZ_CPA; return true; }
static std::string check_size(const Op&o,const Input&in,size_t z){ char b[300]; double raw=(double)in.n*in.nc*(o.dbl?8:4),lim; int f=o.fk%NFIELD; 
  if(z>3*raw+300){ snprintf(b,sizeof b,"%s: %.0f bytes of data take %zu bytes in the archive",codec_name[o.codec],raw,z); return b; }
  if((f==2||f==3)&&!(ci[o.codec].ebs&&o.ebk)){ sh->probes[P_CONSTF]++; if(z>0.15*raw+300){ snprintf(b,sizeof b,"%s: %.0f bytes of one repeated value take %zu bytes in the archive",codec_name[o.codec],raw,z); return b; } }
  if(smooth_loose(o,in,lim)){ sh->probes[P_SMOOTH]++; if(z>lim*raw){ snprintf(b,sizeof b,"%s: %.0f bytes of smooth data with a loose bound take %zu bytes in the archive (limit %.2f of the raw size)",codec_name[o.codec],raw,z,lim); return b; } }
  return ""; }
static std::string judge(const std::string&prop,const Op&o,const Input&in,void**outs,const char**cls);
static void do_store(int i,const Op&o,OpRes&r){ char fn[32]; fname(o,fn); int slot=o.n%8; if(sh->owner[slot]>=0) probe(P_OVW); sh->owner[slot]=-1; r.state=O_NONE; ctx.op=i; sh->cur_op=i; alloc_index=0;
  Input in=make_input(o); Live l; materialise(o,in,l); Req q=l.q; size_t size=0; unsigned char*c,*z=nullptr; size_t zn; 
  { Sut s; c=glue_compress(q,size); } if(!c) violation("store-failed","%s returned nothing",op_brief(o).c_str());
  if(q.logebs){ r.c=blob_put(q.logebs,in.n*8); } logev(size); logev(hash_bytes(c,std::min(size,block_size_of(c))));
  { Sut s; zn=glue_lossless_c(c,size,&z,o.level); } if(!z||!zn) violation("store-failed","the lossless stage refuses %zu bytes although nothing failed",(size_t)size); if(zn>block_size_of(z)) violation("store-failed","lossless size %zu exceeds its buffer",zn);
  if(cur_prop=="C15"){ std::string e=check_size(o,in,zn); if(!e.empty()) violation("archive-size","%s (%s)",e.c_str(),op_brief(o).c_str()); }
  { Sut s; glue_write_u8(fn,z,zn); } r.size=size; r.st[0]=zn; r.st[1]=hash_bytes(z,zn); r.state=O_OK; sh->owner[slot]=i; r.nst=(int)sh->nt; caller_free(c); caller_free(z); if(q.logebs) caller_free(q.logebs); release_live(l); ctx.op=-1; }
static void do_load(int i,const Op&o,const Plan&p){ int sidx=o.ref; if(sidx<0||sidx>=(int)p.ops.size()) return; const Op&so=p.ops[sidx]; if(so.kind!=K_STORE||so.codec==C_3DEB) return; int slot=so.n%8; if(sh->owner[slot]!=sidx||sh->op[sidx].state!=O_OK) return; OpRes&sr=sh->op[sidx]; char fn[32]; fname(so,fn); ctx.op=i; sh->cur_op=i; alloc_index=0;
  if((int)sh->nt!=sr.nst) probe(P_LAR); if(sh->line[0]=='K') probe(P_LAC);
  size_t n=(size_t)-1; unsigned char*z; { Sut s; z=glue_read_u8(fn,n); } if(!z) violation("load-failed","the stored file could not be read back"); if(n!=sr.st[0]||hash_bytes(z,std::min(n,block_size_of(z)))!=sr.st[1]) violation("stored-bytes","file of %zu bytes read back as %zu bytes%s",(size_t)sr.st[0],n,n==sr.st[0]?" with other content":"");
  unsigned char*c=nullptr; size_t un; { Sut s; un=glue_lossless_d(z,n,&c,sr.size); } caller_free(z); if(!c||un!=sr.size) violation("load-failed","lossless stage returned %zu bytes instead of %zu",(size_t)un,(size_t)sr.size);
  Input in=make_input(so); Live l; materialise(so,in,l,false); Req q=l.q; double*le=nullptr; if(sr.c.len){ le=(double*)heap_alloc(sr.c.len,-2); memcpy(le,blobs+sr.c.off,sr.c.len); q.ebs=le; }
  void*outs[3]={0,0,0}; int no=ci[so.codec].group>=2&&so.codec!=C_3UNS?ci[so.codec].nc:so.codec==C_3UNS?1:0; if(o.prealloc) for(int k=0;k<no;k++){ Sut s; outs[k]=malloc(in.n*(so.dbl?8:4)); probe(P_PRE); }
  int no2; { Sut s; no2=glue_decompress(q,c,outs); } caller_free(c); for(int k=0;k<no2;k++){ if(!outs[k]) violation("load-failed","no data restored"); size_t nb=in.n*(so.dbl?8:4); if(block_size_of(outs[k])<nb) violation("load-failed","restored array has %zu bytes instead of %zu",block_size_of(outs[k]),nb); logev(hash_bytes(outs[k],nb)); }
  const char*cls; std::string e=judge(p.prop,so,in,outs,&cls); if(!e.empty()) violation(cls,"%s (%s)",e.c_str(),op_brief(so).c_str());
  sh->op[i].state=O_OK; for(int k=0;k<no2;k++) caller_free(outs[k]); if(le) heap_release(le); release_live(l); ctx.op=-1; }
// ---- guided search: a small field is compressed and restored again and again; each round perturbs it, and perturbations that bring some
// cell closer to gaining, losing or changing a critical point are kept. score: smallest (margin after)/(margin before) over all cells, <0 is a violation
static Q det_rel(Q s,Q m){ return m>0? s/m : 0; }
static Q cp_margin2(const double*u,const double*v){ Q a[3]={(Q)u[2]*v[0],(Q)u[1]*v[2],(Q)u[0]*v[1]},b[3]={(Q)u[0]*v[2],(Q)u[2]*v[1],(Q)u[1]*v[0]},s[3]; Q mm=0; for(int k=0;k<3;k++) mm=std::max(mm,qabs(a[k])+qabs(b[k])); for(int k=0;k<3;k++) s[k]=det_rel(a[k]-b[k],mm); Q mn=std::min(s[0],std::min(s[1],s[2])),mx=std::max(s[0],std::max(s[1],s[2])); return std::max(mn,-mx); }
static Q cp_margin3(const double*u,const double*v,const double*w){ static const int id[4][3]={{1,2,3},{0,2,3},{0,1,3},{0,1,2}}; static const int sg[4]={-1,1,-1,1}; Q s[4],mm=0; for(int q=0;q<4;q++){ int a=id[q][0],b=id[q][1],c=id[q][2]; Q t[6]={(Q)u[a]*v[b]*w[c],-(Q)u[a]*v[c]*w[b],(Q)u[b]*v[c]*w[a],-(Q)u[b]*v[a]*w[c],(Q)u[c]*v[a]*w[b],-(Q)u[c]*v[b]*w[a]}; Q x=0,m=0; for(Q z:t){ x+=z; m+=qabs(z); } s[q]=x*sg[q]; mm=std::max(mm,m); } Q mn=s[0],mx=s[0]; for(int q=0;q<4;q++){ mn=std::min(mn,s[q]); mx=std::max(mx,s[q]); } return det_rel(std::max(mn,-mx),mm); }
static void type_margins(const double*u,const double*v,int k,Q*m){ Q ux,uy,vx,vy; if(k==0){ uy=(Q)u[1]-u[0]; ux=(Q)u[2]-u[1]; vy=(Q)v[1]-v[0]; vx=(Q)v[2]-v[1]; } else { ux=(Q)u[1]-u[0]; uy=(Q)u[2]-u[1]; vx=(Q)v[1]-v[0]; vy=(Q)v[2]-v[1]; }
  Q n=qabs(ux)+qabs(uy)+qabs(vx)+qabs(vy); if(n==0){ m[0]=m[1]=m[2]=0; return; } Q det=ux*vy-uy*vx,tr=ux+vy; m[0]=det/(n*n); m[1]=det>0?tr/n:0; m[2]=det>0?(tr*tr-4*det)/(n*n):0; }
// bilinear cells: margins of the two roots (inside the cell >0) and, when they are real, of the type of each; returns 0 none, 1 complex roots, 2 real roots
struct BilM { int kind=0; Q disc=0,in[2]={0,0},ty[2][3]; };
static void bilin_margins(const double*u,const double*v,BilM&m){ double A0=u[0]-u[1]-u[3]+u[2],B0=u[1]-u[0],C0=u[3]-u[0],D0=u[0],A1=v[0]-v[1]-v[3]+v[2],B1=v[1]-v[0],C1=v[3]-v[0],D1=v[0];
  double a=A0*C1-A1*C0,b=A0*D1+B0*C1-A1*D0-B1*C0,c=B0*D1-B1*D0,sc=fabs(a)+fabs(b)+fabs(c); if(sc==0) return; a/=sc; b/=sc; c/=sc; double dl=b*b-4*a*c; m.disc=dl; if(fabs(a)<1e-4) return; if(dl<0){ m.kind=1; return; } m.kind=2; double sq=sqrt(dl),su=fabs(u[0])+fabs(u[1])+fabs(u[2])+fabs(u[3]),sv=fabs(v[0])+fabs(v[1])+fabs(v[2])+fabs(v[3]);
  for(int k=0;k<2;k++){ double y=(-b+(k?sq:-sq))/(2*a),d0=A0*y+B0,d1=A1*y+B1; double x= su>0&&(sv==0||fabs(d0)/su>fabs(d1)/sv)? -(C0*y+D0)/d0 : -(C1*y+D1)/d1; double w=std::min(std::min(x,1-x),std::min(y,1-y)); if(!(w>-1)) w=-1; m.in[k]=w;
    double p=A0*y+B0,q=A0*x+C0,r=A1*y+B1,s=A1*x+C1,n=fabs(p)+fabs(q)+fabs(r)+fabs(s); if(!(n>0)){ m.ty[k][0]=m.ty[k][1]=m.ty[k][2]=0; continue; } double det=p*s-q*r,tr=p+s; m.ty[k][0]=det/(n*n); m.ty[k][1]=det>0?tr/n:0; m.ty[k][2]=det>0?(tr*tr-4*det)/(n*n):0; } }
static double hunt_score(const std::string&prop,const Op&o,const Input&in,void**outs){ bool dbl=o.dbl; if(prop!="C08"&&prop!="C17"&&prop!="C18"){ if(prop=="C19") return 2; int g=ci[o.codec].group; double w=0; for(int c=0;c<in.nc;c++) for(size_t i=0;i<in.n;i++){ double x=in.d[c][i],y= dbl? ((double*)outs[c])[i] : ((float*)outs[c])[i]; double e=in.ebs.empty()?o.eb:in.ebs[i]; double lim= g==0||g==3||g==5? e : fabs(x)*e; if(lim>0&&x!=y) w=std::max(w,fabs(x-y)/lim); } return 2-w; } auto D=[&](int c,size_t i)->double{ return dbl?((double*)outs[c])[i]:((float*)outs[c])[i]; }; bool three=ci[o.codec].dim==3||o.codec==C_3UNS; Q best=2; Q floor_=dbl?1e-7:2e-3; int tri=0;
  auto upd=[&](Q a,Q z){ if(qabs(a)<floor_) return; Q r=z/a; if(r<best) best=r; };
  if(o.codec==C_BILIN){ floor_=5e-3; for(int64_t i=0;i+1<o.r1;i++) for(int64_t j=0;j+1<o.r2;j++){ size_t p=i*o.r2+j,id[4]={p,p+1,p+o.r2+1,p+(size_t)o.r2}; double u[4],v[4],U[4],V[4]; for(int q=0;q<4;q++){ u[q]=in.d[0][id[q]]; v[q]=in.d[1][id[q]]; U[q]=D(0,id[q]); V[q]=D(1,id[q]); } BilM a,z; bilin_margins(u,v,a); bilin_margins(U,V,z); if(!a.kind||!z.kind) continue;
      if(a.kind==1){ if(prop=="C08") upd(a.disc,z.disc); continue; } bool any=a.in[0]>0||a.in[1]>0; if(prop=="C08"&&any) upd(a.disc,z.disc); if(z.kind==1) continue;
      for(int k=0;k<2;k++){ if(prop=="C08"){ if(a.in[k]>-0.9) upd(a.in[k],z.in[k]); } else if(a.in[k]>0.005&&z.in[k]>0.001){ upd(a.ty[k][0],z.ty[k][0]); if(a.ty[k][0]>0){ upd(a.ty[k][1],z.ty[k][1]); upd(a.ty[k][2],z.ty[k][2]); } } } } return (double)best; }
  each_cell(o,in,[&](const size_t*id,int n,const char*)->bool{ double u[3][4],U[3][4]; for(int c=0;c<(three?3:2);c++) for(int q=0;q<n;q++){ if(o.codec==C_3UNS){ u[c][q]=in.d[0][3*id[q]+c]; U[c][q]=D(0,3*id[q]+c); } else { u[c][q]=in.d[c][id[q]]; U[c][q]=D(c,id[q]); } }
    int k=(tri++)&1; if(three){ upd(cp_margin3(u[0],u[1],u[2]),cp_margin3(U[0],U[1],U[2])); return true; }
    Q a=cp_margin2(u[0],u[1]),z=cp_margin2(U[0],U[1]); if(prop=="C08"){ if(o.codec==C_RELAX&&a>0) return true; upd(a,z); return true; }
    if(a<=floor_) return true; Q m[3],M[3]; type_margins(u[0],u[1],k,m); type_margins(U[0],U[1],k,M); upd(m[0],M[0]); if(m[0]>0){ upd(m[1],M[1]); upd(m[2],M[2]); } return true; });
  return (double)best; }
static void hunt_mutate(Input&in,const Op&o,Rng&r,bool bnd){ int k=1+(r.chance(0.5)?0:r.below(3)); bool three=o.codec==C_3UNS; for(int t=0;t<k;t++){ int c=r.below(in.nc); size_t i=r.below(in.n); auto&v=in.d[c][i]; switch(r.below(bnd?14:8)){ case 8: v=0; break; case 9: v=o.amp*r.sym()*pow(10,4*r.uni()); break; case 10: v=o.amp*r.sym()*pow(10,-6*r.uni()); break; case 11: { double q=v/o.eb; if(fabs(q)<1e6) v=o.eb*(floor(q)+(r.chance(0.5)?0.5:0)); break; } case 12: { size_t a=r.below(in.n),b=std::min(in.n,a+1+r.below(9)); for(size_t j=a;j<b;j++) in.d[c][j]=v; break; } case 13: { size_t a=r.below(in.n),b=std::min(in.n,a+1+r.below(9)); for(size_t j=a;j<b;j++) in.d[c][j]=o.amp*r.sym(); break; } case 0: v=r.sym()*o.amp; break; case 1: v=-v; break; case 2: v*=1+0.5*r.sym(); break; case 3: v+=0.3*o.amp*r.sym(); break; case 4: { size_t j=r.below(in.n); std::swap(v,in.d[c][j]); break; } case 5: { double s=0.02*o.amp*r.sym(); for(auto&x:in.d[c]) x+=s; break; } case 6: v*=1+pow(10,-4*r.uni())*r.sym(); break; default: v+=o.amp*pow(10,-4*r.uni())*r.sym(); } (void)three; }
  if(!o.dbl) for(auto&d:in.d) for(auto&x:d) x=(float)x; }
typedef unsigned char* (*PlainC)(Req*,size_t*); typedef int (*PlainD)(Req*,const unsigned char*,void**); static PlainC plain_c; static PlainD plain_d;
void load_plain(){ char b[4000]; ssize_t n=readlink("/proc/self/exe",b,sizeof b-20); if(n<=0) return; b[n]=0; char*e=strrchr(b,'/'); if(!e) return; strcpy(e+1,"plain.so"); void*h=dlopen(b,RTLD_NOW|RTLD_LOCAL); if(!h){ fprintf(stderr,"%s\n",dlerror()); _exit(91); } plain_c=(PlainC)dlsym(h,"plain_compress"); plain_d=(PlainD)dlsym(h,"plain_decompress"); if(!plain_c||!plain_d) _exit(91); }
static std::string judge(const std::string&prop,const Op&o,const Input&in,void**outs,const char**cls){ *cls= prop=="C08"||prop=="C18"?"critical-point":prop=="C17"?"critical-point-type":prop=="C19"?"critical-point-moves":"bound"; return prop=="C08"? check_cp(o,in,outs) : prop=="C17"? check_type(o,in,outs) : prop=="C18"? check_cp3(o,in,outs) : prop=="C19"? check_exact(o,in,outs) : check_bounds(o,in,outs); }
static std::string hunt_round(const std::string&prop,const Op&o,const Input&in,bool plain,double*score,const char**cls){ Live l; materialise(o,in,l); Req q=l.q; size_t size=0; unsigned char*c; if(plain) c=plain_c(&q,&size); else { Sut s; c=glue_compress(q,size); } if(!c) violation("store-failed","%s returned nothing",op_brief(o).c_str());
  void*outs[3]={0,0,0}; int n; if(q.logebs) q.ebs=q.logebs; if(plain) n=plain_d(&q,c,outs); else { Sut s; n=glue_decompress(q,c,outs); } auto rel=[&](void*x){ if(plain) free(x); else caller_free(x); }; rel(c); for(int k=0;k<n;k++) if(!outs[k]) violation("load-failed","no data restored"); logev(size);
  std::string e=judge(prop,o,in,outs,cls); if(score) *score=hunt_score(prop,o,in,outs); for(int k=0;k<n;k++) rel(outs[k]); if(q.logebs) rel(q.logebs); release_live(l); return e; }
static void do_hunt(int i,const Op&o,const Plan&p){ mallopt(M_MMAP_THRESHOLD,1<<30); mallopt(M_TRIM_THRESHOLD,1<<30); mallopt(M_TOP_PAD,64<<20); ctx.op=i; sh->cur_op=i; alloc_index=0; Rng r(o.fseed*9176+o.share+3); Input best=make_input(o); double bs=1e9,low=1e9; int rounds=(int)std::max<int64_t>(1,o.share),stale=0; const char*cls="";
  for(int it=0;it<rounds;it++){ Input in=best; if(it) hunt_mutate(in,o,r,p.prop=="C06"||p.prop=="C07"||p.prop=="C14"); double s=2; std::string e=hunt_round(p.prop,o,in,true,&s,&cls); probe(P_HR);
    if(!e.empty()){ e=hunt_round(p.prop,o,in,false,nullptr,&cls); if(!e.empty()) violation(cls,"%s (%s, round %d of a guided search)",e.c_str(),op_brief(o).c_str(),it); probe(P_HU); }
    if(s<low) low=s; if(s<bs){ if(it) probe(P_HI); bs=s; best=in; stale=0; } else if(++stale>(int)o.skew||s>=2){ bs=1e9; stale=0; } } // after a while without progress: accept whatever comes next
  if(low<0.05) probe(P_HN); logev((uint64_t)(low*1e6)); sh->op[i].state=O_OK; ctx.op=-1; }
static RunResult run_arch(const Plan&p){ RunResult rr; cur_prop=p.prop; disk_reset(); sh->blob_used=0; for(int i=0;i<32;i++) sh->owner[i]=-1; for(size_t i=0;i<p.ops.size();i++) memset(&sh->op[i],0,sizeof(OpRes)); int ne=0; for(auto&o:p.ops) ne=std::max(ne,(int)o.ep+1); uint64_t sig=0; bool crashed=false; int loads=0;
  for(int ep=0;ep<ne;ep++){ int nt=0; for(auto&o:p.ops) if(o.ep==ep) nt=std::max(nt,(int)o.thread+1); if(!nt) continue; 
    std::vector<Fault> fl; uint64_t ks=0; for(auto&f:p.faults){ if(f.kind==F_KILL_STEP){ if(f.op==ep) ks=f.n; } else if(f.kind==F_KILL_IO){ if(f.op==ep){ Fault g=f; g.op=-1; fl.push_back(g); } } else fl.push_back(f); }
    sh->line[0]=crashed?'K':0; sh->nt=ep;
    Child c=run_child(rr.st,rr.hash,[&]{ Env e=p.env; e.seed+=ep*131; if(ep){ e.fill=(e.fill+ep)%6; e.place=(e.place+ep)%4; } env_begin(e); faults_set(fl); kill_step=ks; std::vector<std::function<void()>> th; for(int t=0;t<nt;t++) th.push_back([&,t]{ for(size_t i=0;i<p.ops.size();i++){ const Op&o=p.ops[i]; if(o.ep!=ep||o.thread!=t) continue; if(p.env.stack) paint_stack(p.env.stack+i); try{ if(o.kind==K_STORE) do_store(i,o,sh->op[i]); else if(o.kind==K_HUNT) do_hunt(i,o,p); else do_load(i,o,p); }catch(const std::exception&x){ ctx.in_sut=false; violation("store-or-load-failed","exception '%s' in operation %d",x.what(),(int)i); }catch(...){ ctx.in_sut=false; violation("store-or-load-failed","exception in operation %d",(int)i); } } });
      if(nt==1){ step_budget(STEPCAP); SchedCfg sc=cfg_for(p,ep,STEPCAP); sched_run(th,sc); } else sched_run(th,cfg_for(p,ep,STEPCAP)); });
    record(rr,ep); sig=mix64(sig^sh->schedhash^sh->loghash); crashed=false;
    for(size_t i=0;i<p.ops.size();i++) if((p.ops[i].kind==K_LOAD||p.ops[i].kind==K_HUNT)&&p.ops[i].ep==ep&&sh->op[i].state==O_OK) loads++;
    if(c.outcome==O_VIOL){ fill_viol(rr); return rr; }
    if(c.outcome==O_KILLED){ crashed=true; if(sh->cur_op>=0&&p.ops[sh->cur_op].kind==K_STORE) rr.st.probes[P_CIS]++; continue; }
    if(c.outcome!=O_OK){ set_viol(rr,"stopped",child_desc(c)+" in operation "+std::to_string(sh->cur_op)+" ("+(sh->cur_op>=0?op_brief(p.ops[p.ops[sh->cur_op].kind==K_LOAD?p.ops[sh->cur_op].ref:sh->cur_op]):"")+")"); return rr; } }
  rr.sig=sig; rr.nontrivial=loads>0; return rr; }
// ---------------------------------------------------------------- C09
static RunResult run_loss(const Plan&p){ RunResult rr; disk_reset(); sh->blob_used=0; const Op&o=p.ops[0]; std::vector<unsigned char> pl; bool field=o.kind!=K_L; for(size_t i=0;i<p.ops.size();i++) memset(&sh->op[i],0,sizeof(OpRes)); int64_t cut=p.p("cut",-1); int mode=(int)p.p("mode",0); // mode 0: exact; 1: truncated file; 2: crash while storing; 
  const char*fn="/arch/x"; OpRes&r=sh->op[0]; Op po=o; if(o.kind==K_L) pl=payload(o);
  std::vector<Fault> f1,f2; for(auto&f:p.faults) (f.op==1?f2:f1).push_back(f); for(auto&f:f1) f.op=-1; for(auto&f:f2) f.op=-1;
  Child c=run_child(rr.st,rr.hash,[&]{ env_begin(p.env); faults_set(f1); step_budget(STEPCAP); ctx.op=0; sh->cur_op=0; unsigned char*raw; size_t rn; Live l; 
    if(field){ Input in=make_input(o); materialise(o,in,l); Req q=l.q; { Sut s; raw=glue_compress(q,rn); } } else { rn=pl.size(); raw=(unsigned char*)heap_alloc(rn?rn:1,0); memcpy(raw,pl.data(),rn); }
    r.c=blob_put(raw,rn); r.size=rn; unsigned char*z=nullptr; size_t zn; { Sut s; zn=glue_lossless_c(raw,rn,&z,o.level); } r.st[0]=zn; if(!z||!zn) violation("lossless-failed","%zu bytes are not taken by the lossless stage although nothing failed",(size_t)rn); if(zn>block_size_of(z)) violation("lossless-differs","lossless size %zu exceeds its buffer",zn); r.z=blob_put(z,zn); r.state=1; try{ Sut s; glue_write_u8(fn,z,zn); }catch(...){ ctx.in_sut=false; } r.state=O_OK; logev(zn); });
  if(c.outcome==O_VIOL){ fill_viol(rr); return rr; } if(c.outcome!=O_OK&&c.outcome!=O_KILLED){ rr.invalid=true; rr.msg=child_desc(c); return rr; } if(r.z.len==0||!disk_has(fn)){ return rr; }
  int k=disk_find(fn); uint64_t have=disk->f[k].size; if(mode==1){ cut=r.st[0]? cut%(int64_t)r.st[0]:0; if((uint64_t)cut<have) disk->f[k].size=cut; rr.st.fired[F_TRUNC]++; }
  uint64_t len=disk->f[k].size; bool complete= len==r.st[0]; if(!complete) rr.st.probes[P_TRU]++;
  bool d64=p.p("d64",0)&&r.size<=65536; OpRes&g=sh->op[1]; const Op*lo=&o;
  Child c2=run_child(rr.st,rr.hash,[&]{ Env e=p.env; e.seed+=77; e.fill=(e.fill+1)%6; env_begin(e); faults_set(f2); step_budget(STEPCAP); ctx.op=1; sh->cur_op=1; paint_stack(p.env.stack); size_t n=(size_t)-1; unsigned char*z=nullptr; try{ Sut s; z=glue_read_u8(fn,n); }catch(...){ ctx.in_sut=false; g.state=O_EXC; return; } 
    if(!z||n==(size_t)-1){ g.state=O_NULL; return; } if(n==0&&r.st[0]!=0){ /* nothing there: a caller can see it */ }
    unsigned char*u=nullptr; size_t un=0; try{ Sut s; un= d64? glue_lossless_d64(z,n,&u) : glue_lossless_d(z,n,&u,r.size); }catch(...){ ctx.in_sut=false; g.state=O_EXC; return; }
    g.size=un; if(!u){ g.state=O_NULL; return; } bool ok= d64? un>=r.size&&un<=65536&&block_size_of(u)>=r.size&&!memcmp(u,blobs+r.c.off,r.size) : un==r.size&&block_size_of(u)>=un&&!memcmp(u,blobs+r.c.off,un); g.state=O_OK; g.st[0]=ok; logev(ok); (void)lo; });
  rr.sig=hash_str(plan_text(p)); rr.nontrivial=true; bool reported= c2.outcome==O_EXIT||c2.outcome==O_SIGNAL||g.state==O_EXC||g.state==O_NULL||(g.state==O_OK&&(d64?g.size!=65536:g.size!=r.size));
  if(c2.outcome==O_VIOL){ fill_viol(rr); return rr; } if(c2.outcome==O_HANG){ set_viol(rr,"no-progress","never returns"); return rr; }
  if(complete&&(reported||!g.st[0])){ set_viol(rr,"lossless-differs",reported?"an intact artefact is not accepted ("+child_desc(c2)+")":"an intact artefact comes back with different content"); return rr; }
  if(!complete&&!reported&&!g.st[0]){ char b[200]; snprintf(b,sizeof b,"artefact cut at byte %llu of %llu is handed on as %llu restored bytes",(unsigned long long)len,(unsigned long long)r.st[0],(unsigned long long)g.size); set_viol(rr,"torn-artefact-accepted",b); }
  return rr; }
// ---------------------------------------------------------------- C10 C11 (library level)
static bool transparent(const Plan&p){ for(auto&f:p.faults) if(f.kind!=F_SHORT&&f.kind!=F_EINTR&&f.kind!=F_CLOCKJUMP) return false; return true; }
static std::string readfd(int fd){ std::string s; char b[65536]; lseek(fd,0,SEEK_SET); ssize_t n; while((n=syscall(SYS_read,fd,b,sizeof b))>0) s.append(b,n); return s; }
static int memfd(){ return (int)syscall(SYS_memfd_create,"cap",0); }
static bool complains(const std::string&out){ std::string l; for(char ch:out) l+=tolower(ch); for(const char*w:{"error","couldn","could not","can't","cannot","fail","warning","unable","invalid"}) if(l.find(w)!=std::string::npos) return true; return false; }
static RunResult run_io(const Plan&p){ RunResult rr; disk_reset(); sh->blob_used=0; const Op&o=p.ops[0]; memset(&sh->op[0],0,sizeof(OpRes)); const char*fn="/data/in.dat"; size_t es=o.typ==0||o.typ==4?1:o.typ==2||o.typ==6?8:4; std::vector<unsigned char> pl=payload(o); bool missing=p.p("missing",0); if(p.p("capacity",-1)>=0) disk->capacity=p.p("capacity"); 
  rr.sig=hash_str(plan_text(p)); int cap=memfd();
  if(o.kind==K_READ){ if(!missing) disk_put(fn,pl.data(),pl.size()); OpRes&r=sh->op[0]; size_t want=pl.size()/es;
    Child c=run_child(rr.st,rr.hash,[&]{ env_begin(p.env); faults_set(p.faults); step_budget(STEPCAP); ctx.op=0; sh->cur_op=0; size_t n=0x5EAD5EAD5EADull; void*b=nullptr; bool own=false; paint_stack(p.env.stack); char nm[64]; snprintf(nm,sizeof nm,"%s",fn);
      try{ if(o.typ>=4){ b=heap_alloc(want*es+64,-2); } Sut s; switch(o.typ){ case 0: b=glue_read_u8(nm,n); own=true; break; case 1: b=glue_read_f32(nm,n); own=true; break; case 2: b=glue_read_f64(nm,n); own=true; break; case 3: b=glue_read_i32(nm,n); own=true; break; case 4: glue_readbuf_u8(nm,n,(unsigned char*)b); break; case 5: glue_readbuf_f32(nm,n,(float*)b); break; case 6: glue_readbuf_f64(nm,n,(double*)b); break; } }catch(...){ ctx.in_sut=false; r.state=O_EXC; fflush(stdout); return; }
      (void)own; bool delivered= b&&n!=0x5EAD5EAD5EADull; if(!delivered){ r.state=O_NULL; logev(0); return; } r.state=O_OK; r.size=n; size_t have=std::min(n*es,(size_t)block_size_of(b)); bool over=n>want||n*es>block_size_of(b); size_t cmp=std::min(have,want*es); r.st[0]=!over&&!memcmp(b,pl.data(),cmp); r.st[1]=over; logev(n); logev(r.st[0]); },cap);
    std::string out=readfd(cap); syscall(SYS_close,cap); bool shrink=rr.st.fired[F_SHRINK]>0; rr.nontrivial=!p.faults.empty()||missing; bool hard=missing; for(int k=F_EIO;k<=F_STATFAIL;k++) if(rr.st.fired[k]) hard=true;
    if(c.outcome==O_VIOL){ fill_viol(rr); return rr; } if(c.outcome==O_HANG){ set_viol(rr,"no-progress","the reader never returns"); return rr; }
    if(c.outcome!=O_OK||r.state==O_EXC){ rr.st.probes[P_RR]++; if(!hard) set_viol(rr,"read-failed","the reader fails ("+child_desc(c)+") although every byte can be read"); return rr; }
    if(r.state==O_NULL){ rr.st.probes[P_RR]++; if(!hard){ set_viol(rr,"read-failed","the reader delivers nothing although every byte can be read"); return rr; } if(!complains(out)) set_viol(rr,"unreported-read-failure","the reader delivers nothing and says nothing"); return rr; }
    if(!r.st[0]||r.st[1]){ char b[200]; snprintf(b,sizeof b,"reader delivers %llu elements, file has %zu; content %s",(unsigned long long)r.size,want,r.st[1]?"beyond what exists":"is not the file's"); set_viol(rr,"garbage-delivered",b); return rr; }
    if(r.size<want){ if(!shrink){ char b[160]; snprintf(b,sizeof b,"reader delivers %llu of %zu elements without the file having shrunk",(unsigned long long)r.size,want); if(!complains(out)) set_viol(rr,"short-delivery",b); return rr; } rr.st.probes[P_RP]++; return rr; }
    rr.st.probes[P_RF]++; return rr; }
  // write
  bool pre=p.p("stale",0); if(pre){ std::vector<unsigned char> st(p.p("stale")); for(size_t i=0;i<st.size();i++) st[i]=0xEE; disk_put(fn,st.data(),st.size()); } OpRes&r=sh->op[0]; size_t cnt=pl.size()/es;
  Child c=run_child(rr.st,rr.hash,[&]{ env_begin(p.env); faults_set(p.faults); step_budget(STEPCAP); ctx.op=0; sh->cur_op=0; void*b=heap_alloc(cnt*es,-2); memcpy(b,pl.data(),cnt*es); uint64_t d=hash_bytes(b,cnt*es); try{ Sut s; if(es==1) glue_write_u8(fn,(unsigned char*)b,cnt); else if(es==4) glue_write_f32(fn,(float*)b,cnt); else glue_write_f64(fn,(double*)b,cnt); }catch(...){ ctx.in_sut=false; r.state=O_EXC; return; } r.state=O_OK; if(hash_bytes(b,cnt*es)!=d) violation("input-modified","writing changed the array"); },cap);
  std::string out=readfd(cap); syscall(SYS_close,cap); rr.nontrivial=!p.faults.empty()||p.p("capacity",-1)>=0; bool reported=c.outcome==O_EXIT||c.outcome==O_SIGNAL||r.state==O_EXC||complains(out); bool hard=false; for(int k=F_EIO;k<=F_STATFAIL;k++) if(rr.st.fired[k]) hard=true;
  if(c.outcome==O_VIOL){ fill_viol(rr); return rr; } if(c.outcome==O_HANG){ set_viol(rr,"no-progress","the writer never returns"); return rr; }
  std::string got=disk_get(fn); bool okc=disk_has(fn)&&got.size()==cnt*es&&!memcmp(got.data(),pl.data(),got.size());
  if(!reported&&!okc){ char b[200]; snprintf(b,sizeof b,"writefile returns normally but the file holds %zu of %zu bytes%s",got.size(),cnt*es,got.size()==cnt*es?" with other content":""); set_viol(rr,"silent-write-failure",b); return rr; }
  if(reported&&!hard){ set_viol(rr,"write-failed","the writer fails although the disk accepts every byte"); return rr; }
  if(!reported&&hard){ bool closef=rr.st.fired[F_CLOSEFAIL]; (void)closef; set_viol(rr,"silent-write-failure","a failing system call during the write is not reported"); return rr; }
  rr.st.probes[reported?P_WRE:P_WOK]++; return rr; }
// ---------------------------------------------------------------- programs (C10 C11 C12)
static std::vector<double> g_prog_eb;
struct Prog { const char*name; int (*fn)(int,char**); std::vector<std::string> inputs; std::vector<std::string> outputs; std::vector<std::string> args; };
static bool mk_prog(const Op&o,Prog&g){ char b[64]; auto num=[&](double v){ snprintf(b,sizeof b,"%.9g",v); return std::string(b); }; Op f=o; std::vector<double> a,e; 
  auto putf=[&](const char*n,const std::vector<double>&v,bool dbl){ if(dbl) disk_put(n,v.data(),v.size()*8); else { std::vector<float> x(v.begin(),v.end()); disk_put(n,x.data(),x.size()*4); } g.inputs.push_back(n); };
  int n1=o.r1,n2=o.r2; switch(o.typ){
   case 0: g.name="sz_test"; g.fn=prog_sz_test; gen_field(a,o.fk,0,n1,n2,1,o.fseed,o.amp); putf("/p/u.dat",a,false); g.args={"sz_test","/p/u.dat",num(n1),"1",num(n2),num(o.eb)}; return true;
   case 1: { g.name="sz_compress_2d_with_eb"; g.fn=prog_2d_with_eb; gen_field(a,o.fk,0,n1,n2,1,o.fseed,o.amp); putf("/p/u.dat",a,false); Rng r(o.fseed+1); for(size_t i=0;i<a.size();i++) e.push_back(o.eb*(0.1+r.uni())); putf("/p/eb.dat",e,true); g_prog_eb=e; g.args={"sz_compress_2d_with_eb","/p/u.dat","/p/eb.dat",num(n1),num(n2),o.ind?"1":"0"}; return true; }
   case 2: g.name="sz_compress_cp_preserve_2d_test"; g.fn=prog_cp2d; gen_field(a,o.fk,0,n1,n2,1,o.fseed,o.amp); putf("/p/u.dat",a,false); gen_field(a,o.fk,1,n1,n2,1,o.fseed,o.amp); putf("/p/v.dat",a,false); g.outputs={"/p/u.dat.out","/p/v.dat.out"}; g.args={"cp2d","/p/u.dat","/p/v.dat",num(n1),num(n2),num(o.eb)}; return true;
   case 3: { g.name="sz_compress_test_with_eb"; g.fn=prog_test_with_eb; gen_field(a,o.fk,0,n1,n2,1,o.fseed,o.amp); putf("/p/u.dat",a,true); Rng r(o.fseed+1); for(size_t i=0;i<a.size();i++) e.push_back(o.eb*(0.1+r.uni())); putf("/Users/xin/github/ftk_xin/ftk/build/ebs.dat",e,true); g.args={"te","/p/u.dat",num(n1),"1",num(n2),"2"}; return true; }
   case 4: { if(!prog_cp3d) return false; g.name="sz_compress_cp_preserve_3d_test"; g.fn=prog_cp3d; int n3=o.r3; for(int c=0;c<3;c++){ gen_field(a,o.fk,c,n1,n2,n3,o.fseed,o.amp); const char*nm[3]={"/p/u.dat","/p/v.dat","/p/w.dat"}; putf(nm[c],a,false); } g.outputs={"/p/u.dat.out","/p/v.dat.out","/p/w.dat.out"}; g.args={"cp3d","/p/u.dat","/p/v.dat","/p/w.dat",num(n1),num(n2),num(n3),num(o.eb)}; return true; }
   case 5: { if(!prog_cp3du) return false; g.name="sz_compress_cp_preserve_3d_unstructured_test"; g.fn=prog_cp3du; Op u=o; u.codec=C_3UNS; u.dbl=0; u.kind=K_STORE; u.r1=o.r1; u.r2=u.r3=1; u.alpha=o.n; Input in=make_input(u); putf("/p/pts.dat",in.pts,false); putf("/p/d.dat",in.d[0],false); disk_put("/p/tets.dat",in.tets.data(),in.tets.size()*4); g.inputs={"/p/d.dat","/p/pts.dat","/p/tets.dat"}; g.outputs={"/p/d.dat.out"}; g.args={"cp3du","/p/pts.dat","/p/d.dat","/p/tets.dat",num(o.eb)}; return true; }
  } return false; }
// the numbers a program reports, without its timings
static std::string normalise(const std::string&s){ std::istringstream in(s); std::string l,r; while(std::getline(in,l)){ if(l.find("ime")!=std::string::npos&&(l.find(" time")!=std::string::npos||l.find("Time")!=std::string::npos||l.find("time:")!=std::string::npos)) continue; r+=l+"\n"; } return r; }
static Child run_prog(const Prog&g,const Env&e,const std::vector<Fault>&fl,uint64_t ks,uint64_t ksio,Stats&stt,uint64_t&h,std::string&out){ int cap=memfd(); Child c=run_child(stt,h,[&]{ env_begin(e); faults_set(fl); step_budget(STEPCAP); kill_step=ks; std::vector<char*> av; std::vector<std::string> copy=g.args; for(auto&s:copy) av.push_back((char*)s.c_str()); av.push_back(nullptr); ctx.op=0; sh->cur_op=0; if(e.stack) paint_stack(e.stack); int rc=0; { Sut s; rc=g.fn((int)copy.size(),av.data()); } ctx.in_sut=false; std::fflush(nullptr); (void)rc; },cap); (void)ksio; out=readfd(cap); syscall(SYS_close,cap); h=mix64(h^hash_str(normalise(out))); return c; }
// ---- do the printed statistics and the written files agree with each other, with the inputs and with the bound asked for?
static std::vector<double> as_values(const std::string&s,bool dbl){ std::vector<double> v; if(dbl) for(size_t i=0;i+8<=s.size();i+=8){ double d; memcpy(&d,s.data()+i,8); v.push_back(d); } else for(size_t i=0;i+4<=s.size();i+=4){ float d; memcpy(&d,s.data()+i,4); v.push_back(d); } return v; }
static bool near(double a,double b,double rel,double abs_){ if(std::isnan(a)&&std::isnan(b)) return true; if(a==b) return true; return fabs(a-b)<=rel*std::max(fabs(a),fabs(b))+abs_; }
struct Report { double mn,mx,range,maxabs,maxrel,maxpw,psnr,nrmse,ac; int seen=0; };
static std::vector<Report> parse_reports(const std::string&out){ std::vector<Report> v; std::istringstream in(out); std::string l; while(std::getline(in,l)){ Report q; if(sscanf(l.c_str(),"Min=%lf, Max=%lf, range=%lf",&q.mn,&q.mx,&q.range)==3){ q.seen=1; v.push_back(q); continue; } if(v.empty()) continue; Report&r=v.back(); 
    if(sscanf(l.c_str(),"Max absolute error = %lf",&r.maxabs)==1) r.seen|=2; else if(sscanf(l.c_str(),"Max relative error = %lf",&r.maxrel)==1) r.seen|=4; else if(sscanf(l.c_str(),"Max pw relative error = %lf",&r.maxpw)==1) r.seen|=8; else if(sscanf(l.c_str(),"PSNR = %lf, NRMSE= %lf",&r.psnr,&r.nrmse)==2) r.seen|=16; else if(sscanf(l.c_str(),"acEff=%lf",&r.ac)==1) r.seen|=32; } return v; }
static std::string check_report(const Op&o,const Prog&g,const std::string&out,std::map<std::string,std::string>&orig){ char b[300]; bool dbl=o.typ==3; size_t nf= o.typ==2?2:o.typ==4?3:1; std::vector<Report> rep=parse_reports(out);
  if(out.find("not respected")!=std::string::npos) return "says that its own bound is not respected";
  if(rep.size()!=nf){ snprintf(b,sizeof b,"reports statistics for %zu of %zu fields",rep.size(),nf); return b; }
  double n=0;
  for(size_t k=0;k<nf;k++){ const Report&r=rep[k]; std::vector<double> x=as_values(orig[g.inputs[k]],dbl); n=x.size(); if(r.seen!=63){ snprintf(b,sizeof b,"leaves out a statistic of field %zu",k); return b; }
    double mn=x[0],mx=x[0]; for(double v:x){ mn=std::min(mn,v); mx=std::max(mx,v); } if(r.mn!=mn||r.mx!=mx||!near(r.range,mx-mn,dbl?1e-14:1e-6,0)){ snprintf(b,sizeof b,"reports field %zu as [%.9g, %.9g], range %.9g; it is [%.9g, %.9g]",k,r.mn,r.mx,r.range,mn,mx); return b; }
    double range=mx-mn; if(range>0&&!near(r.maxrel,r.maxabs/range,1e-4,1e-6+1e-10/range)){ snprintf(b,sizeof b,"reports maximum error %.10g and relative maximum error %.10g for a field of range %.6g",r.maxabs,r.maxrel,range); return b; }
    if(std::isfinite(r.psnr)&&range>0&&!near(r.nrmse,pow(10,-r.psnr/20),1e-4,0)){ snprintf(b,sizeof b,"reports PSNR %.8g together with NRMSE %.8g for field %zu",r.psnr,r.nrmse,k); return b; }
    if(std::isfinite(r.psnr)&&range>0&&r.nrmse*range>(r.maxabs+1e-10)*1.001){ snprintf(b,sizeof b,"reports a root mean square error (%.6g) above its maximum error (%.6g)",r.nrmse*range,r.maxabs); return b; }
    if(k<g.outputs.size()){ std::string fs=disk_get(g.outputs[k].c_str()); std::vector<double> y=as_values(fs,dbl); if(fs.size()!=orig[g.inputs[k]].size()){ snprintf(b,sizeof b,"leaves %s with %zu bytes for a field of %zu bytes",g.outputs[k].c_str(),fs.size(),orig[g.inputs[k]].size()); return b; }
      double md=0,pw=0; long double se=0,sx=0,sy=0; for(size_t i=0;i<x.size();i++){ double d= dbl? fabs(x[i]-y[i]) : (double)fabsf((float)x[i]-(float)y[i]); md=std::max(md,d); se+=(long double)d*d; sx+=x[i]; sy+=y[i]; if(fabs(x[i])>1) pw=std::max(pw,d/fabs(x[i])); 
        double lim= o.typ==3? 1e300 : o.typ==5? fabs(x[i])*o.eb*(1+1e-9)+fabs(x[i])*(x[i]!=0?fabs(log2(fabs(x[i]))):0)*1.2e-7+ulp_of(x[i],false)*2 : o.eb*(1+1e-9)+ulp_of(x[i],dbl)*0.5; if(!(fabs(x[i]-y[i])<=lim)){ snprintf(b,sizeof b,"writes element %zu of %s as %.9g; it was %.9g and the bound on the command line is %.6g",i,g.outputs[k].c_str(),y[i],x[i],o.eb); return b; } }
      double mse=(double)(se/x.size()); if(!near(r.maxabs,md,1e-6,1e-10)){ snprintf(b,sizeof b,"reports maximum error %.10f for field %zu; the files differ by %.10f",r.maxabs,k,md); return b; }
      if(!near(r.maxpw,pw,1e-4,1e-6)){ snprintf(b,sizeof b,"reports point-wise relative error %.7f for field %zu; from the files it is %.7f",r.maxpw,k,pw); return b; }
      if(mse>0&&range>0&&mse>1e-60){ double ps=20*log10(range)-10*log10(mse); if(!near(r.psnr,ps,1e-5,2e-3)||!near(r.nrmse,sqrt(mse)/range,1e-3,0)){ snprintf(b,sizeof b,"reports PSNR %.8g, NRMSE %.8g for field %zu; from the files it is %.8g, %.8g",r.psnr,r.nrmse,k,ps,sqrt(mse)/range); return b; } }
      long double mx_=sx/x.size(),my=sy/x.size(),c=0,vx=0,vy=0; for(size_t i=0;i<x.size();i++){ c+=(x[i]-mx_)*(y[i]-my); vx+=(x[i]-mx_)*(x[i]-mx_); vy+=(y[i]-my)*(y[i]-my); } long double big=0; for(double v:x) big=std::max(big,(long double)fabs(v)); if(vx>1e-8L*big*big*x.size()&&vy>1e-8L*big*big*x.size()){ double ac=(double)(c/sqrtl(vx)/sqrtl(vy)); if(!near(r.ac,ac,1e-4,1e-5)){ snprintf(b,sizeof b,"reports correlation %.6f for field %zu; from the files it is %.6f",r.ac,k,ac); return b; } } }
    else if(o.typ==1||o.typ==0){ double lim=0; if(o.typ==1) lim=*std::max_element(g_prog_eb.begin(),g_prog_eb.end()); else { for(double v:x) lim=std::max(lim,fabs(v)*o.eb); lim*=1+1e-4; } if(r.maxabs>lim*(1+1e-6)+1e-9+ulp_of(std::max(fabs(mn),fabs(mx)),dbl)){ snprintf(b,sizeof b,"reports maximum error %.10f; the largest bound asked for is %.10f",r.maxabs,lim); return b; } } }
  // sizes and ratios
  std::istringstream in(out); std::string l; double raw=n*nf*(dbl?8:4); bool size=false; while(std::getline(in,l)){ size_t q=l.find("size = "); if(q==std::string::npos) continue; double sz,ra; if(sscanf(l.c_str()+q,"size = %lf, ratio = %lf",&sz,&ra)!=2) continue; size=true; if(!(sz>0)||!near(ra,raw/sz,2e-5,0)){ snprintf(b,sizeof b,"prints '%s' for %.0f bytes of input",l.c_str(),raw); return b; } }
  if(!size) return "does not report the compressed size"; return ""; }
static RunResult run_prog_world(const Plan&p){ RunResult rr; disk_reset(); sh->blob_used=0; memset(&sh->op[0],0,sizeof(OpRes)); const Op&o=p.ops[0]; Prog g; if(!mk_prog(o,g)){ rr.invalid=true; return rr; } rr.sig=hash_str(plan_text(p)); rr.nontrivial=true;
  std::map<std::string,std::string> orig; for(auto&n:g.inputs) orig[n]=disk_get(n.c_str());
  std::string out0; Env e0=solo_env(); Child c0=run_prog(g,e0,{},0,0,rr.st,rr.hash,out0); if(c0.outcome!=O_OK){ rr.invalid=true; rr.msg=child_desc(c0); return rr; } std::map<std::string,std::string> want; for(auto&n:g.outputs) want[n]=disk_get(n.c_str());
  auto inputs_ok=[&](const char*when){ for(auto&n:g.inputs) if(disk_get(n.c_str())!=orig[n]){ set_viol(rr,"input-modified",std::string(g.name)+" changed its input file "+n+" "+when); return false; } return true; };
  if(!inputs_ok("in an undisturbed run")) return rr;
  disk_reset(); for(auto&n:g.inputs) disk_put(n.c_str(),orig[n].data(),orig[n].size());
  if(p.prop=="C12"||p.prop=="C20"){ int ne=(int)p.p("attempts",2); bool partial=false; for(int ep=0;ep<ne;ep++){ bool last=ep==ne-1; std::vector<Fault> fl; uint64_t ks=0; for(auto&f:p.faults){ if(f.kind==F_KILL_STEP){ if(f.op==ep&&!last) ks=f.n; } else if(f.kind==F_KILL_IO){ if(f.op==ep&&!last){ Fault x=f; x.op=-1; fl.push_back(x); } } else fl.push_back(f); }
      Env e=p.env; e.seed+=ep*31; e.fill=(e.fill+ep)%6; e.clock0+=ep*123456789ull; std::string out; Child c=run_prog(g,e,fl,ks,0,rr.st,rr.hash,out); char w[64]; snprintf(w,sizeof w,"in attempt %d",ep); if(!inputs_ok(w)) return rr;
      if(c.outcome==O_KILLED){ rr.st.probes[P_PK]++; for(auto&n:g.outputs) if(disk_has(n.c_str())) partial=true; continue; }
      if(c.outcome==O_VIOL){ fill_viol(rr); return rr; }
      if(c.outcome!=O_OK){ set_viol(rr,"rerun-fails",std::string(g.name)+" "+child_desc(c)+" "+w+", an undisturbed run succeeds"); return rr; }
      if(partial){ rr.st.probes[P_RPO]++; } rr.st.probes[P_PC]++;
      if(p.prop=="C20"){ std::string e2=check_report(o,g,out,orig); if(!e2.empty()){ set_viol(rr,"untrue-report",std::string(g.name)+" "+e2); return rr; } continue; }
      if(normalise(out)!=normalise(out0)){ std::istringstream a(normalise(out)),b(normalise(out0)); std::string la,lb,d; while(true){ bool xa=(bool)std::getline(a,la),xb=(bool)std::getline(b,lb); if(!xa) la="<nothing>"; if(!xb) lb="<nothing>"; if(la!=lb||(!xa&&!xb)){ d="'"+la+"' instead of '"+lb+"'"; break; } } set_viol(rr,"reported-numbers-differ",std::string(g.name)+" "+w+" reports "+d); return rr; }
      for(auto&n:g.outputs) if(disk_get(n.c_str())!=want[n]){ char b[200]; snprintf(b,sizeof b,"%s %s leaves %s with %zu bytes that differ from an undisturbed run (%zu bytes)",g.name,w,n.c_str(),disk_get(n.c_str()).size(),want[n].size()); set_viol(rr,"outputs-differ",b); return rr; } }
    return rr; }
  // C10 / C11: one run with faults
  if(p.p("missing",0)) disk->f[disk_find(g.inputs[p.p("missing")%g.inputs.size()].c_str())].used=0; if(p.p("capacity",-1)>=0){ uint64_t u=0; for(auto&n:g.inputs) u+=orig[n].size(); disk->capacity=u+p.p("capacity"); }
  std::string out; Child c=run_prog(g,p.env,p.faults,0,0,rr.st,rr.hash,out); if(c.outcome==O_VIOL){ fill_viol(rr); return rr; } if(c.outcome==O_HANG){ set_viol(rr,"no-progress",std::string(g.name)+" never ends"); return rr; }
  bool hard=p.p("missing",0)||0; for(int k=F_EIO;k<=F_STATFAIL;k++) if(rr.st.fired[k]) hard=true; bool failed=(c.outcome==O_EXIT&&c.code!=0)||c.outcome==O_SIGNAL; bool same=normalise(out)==normalise(out0); for(auto&n:g.outputs) if(disk_get(n.c_str())!=want[n]) same=false;
  if(failed){ rr.st.probes[p.prop=="C11"?P_WRE:P_RR]++; if(!hard) set_viol(rr,p.prop=="C11"?"write-failed":"read-failed",std::string(g.name)+" "+child_desc(c)+" although every system call succeeds in the end"); return rr; }
  if(same){ rr.st.probes[p.prop=="C11"?P_WOK:P_RF]++; if(p.prop=="C11"&&hard&&!complains(out)&&false) set_viol(rr,"silent-write-failure","x"); return rr; }
  // it ended normally with something other than the undisturbed results
  if(p.prop=="C10"){ bool results=out.find("ompressed size")!=std::string::npos||out.find("PSNR")!=std::string::npos; for(auto&n:g.outputs) if(disk_has(n.c_str())) results=true; if(results){ std::string bad; for(size_t k=0;k<g.inputs.size();k++) if(!disk_has(g.inputs[k].c_str())) bad=g.inputs[k]+" not delivered"; if(o.typ==5) for(auto&f:p.faults) if(f.kind==F_EACCES){ static const char*nm[3]={"/p/tets.dat","/p/pts.dat","/p/d.dat"}; bad=std::string(nm[(f.n-1)%3])+" not delivered"; } set_viol(rr,"output-from-garbage",std::string(g.name)+" ends normally with results that are not those of its input files"+(bad.empty()?"":" ("+bad+")")); } else rr.st.probes[P_RR]++; return rr; }
  bool rep=false; { std::string d=normalise(out); rep=complains(d); } if(!rep){ for(auto&n:g.outputs) if(disk_get(n.c_str())!=want[n]){ char b[240]; snprintf(b,sizeof b,"%s ends normally and without complaint, but %s holds %zu of %zu bytes",g.name,n.c_str(),disk_get(n.c_str()).size(),want[n].size()); set_viol(rr,"silent-write-failure",b); return rr; } if(!hard) set_viol(rr,"write-failed",std::string(g.name)+" reports other numbers under transparent write faults"); } else rr.st.probes[P_WRE]++;
  return rr; }

RunResult run_plan(const Plan&p){ RunResult r; 
  if(p.world=="conc") r=run_conc(p); else if(p.world=="hist") r=run_hist(p); else if(p.world=="mem") r=run_mem(p); else if(p.world=="leak") r=run_leak(p); else if(p.world=="oom") r=run_oom(p); else if(p.world=="work") r=run_work(p); else if(p.world=="stream") r=run_stream(p); else if(p.world=="arch") r=run_arch(p); else if(p.world=="loss") r=run_loss(p); else if(p.world=="io") r=run_io(p); else if(p.world=="prog") r=run_prog_world(p); else { fprintf(stderr,"unknown world %s\n",p.world.c_str()); exit(91); }
  r.st.runs=1; r.st.nontrivial=r.nontrivial; if(r.viol) r.hash=mix64(r.hash^hash_str(r.cls)); return r; }
} // namespace sim
#include "gen.hpp"
