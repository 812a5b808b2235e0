// Plan generators (one per property) and the plan minimiser. Included by world.cpp.
namespace sim {
// what a run of generators may use
struct Gen { Rng r; bool th; int maxel; explicit Gen(uint64_t s,bool t):r(s),th(t),maxel(t?6000:1600){} 
  // swarm: each plan uses a random subset of codecs, fields and features
  std::vector<int> codecs,fields; bool extremes=false,loose=false; int sizeclass=0; bool thin=false; int bigcap=0; double big=0; // chance of a field well beyond the usual sizes
  void swarm(const std::vector<int>&all){ codecs.clear(); fields.clear(); int k=1+r.below(4); if(r.chance(0.3)) codecs=all; else for(int i=0;i<k;i++) codecs.push_back(r.pick(all)); if(r.chance(0.35)) for(int i=0;i<NFIELD;i++) fields.push_back(i); else { int m=1+r.below(4); for(int i=0;i<m;i++) fields.push_back(r.below(NFIELD)); } extremes=r.chance(0.3); sizeclass=r.below(10); }
  int dim(int lo,int hi){ return r.chance(0.5)? (int)r.range(lo,hi) : (int)r.logu(lo,hi); }
  void shape(Op&o){ shape0(o); if(!thin||o.codec==C_3UNS||!r.chance(0.7)) return; int d=ci[o.codec].dim; if(r.chance(0.5)){ o.r1=1+r.below(6); o.r2=1+r.below(6); if(d==3) o.r3=1+r.below(6); } for(int k=r.chance(0.4)?2:1;k>0;k--){ int w=r.below(d); (w==0?o.r1:w==1?o.r2:o.r3)=r.chance(0.7)?1:2; } } // fields one or two points thick
  void shape0(Op&o){ int d=ci[o.codec].dim; int g=ci[o.codec].group; int mn=(g>=2)?2:1; if(d==3&&g<2) mn=2; if(g<2&&r.chance(0.9)) mn=2;
    if(o.codec==C_3UNS){ o.r1=big>0&&r.chance(big)?2000+r.below(bigcap?bigcap/4:4000):dim(5,sizeclass<7?40:200); o.r2=o.r3=1; o.n=1+r.below(o.r1*4); return; }
    if(big>0&&r.chance(big)){ int cap=bigcap?bigcap:th?40000:20000; if(d==3){ do{ o.r1=r.logu(3,60); o.r2=r.logu(3,60); o.r3=r.logu(3,60); }while(o.r1*o.r2*o.r3>cap||o.r1*o.r2*o.r3<cap/8); } else { do{ o.r1=r.logu(3,3000); o.r2=r.logu(3,3000); }while(o.r1*o.r2>cap||o.r1*o.r2<cap/8); o.r3=1; } return; }
    int hi= sizeclass<3?6: sizeclass<7?16: sizeclass<9?32:64; if(d==3) hi= sizeclass<3?4: sizeclass<7?8: sizeclass<9?12:18;
    if(sizeclass==10){ int cap=std::max(maxel,2500); if(d==3){ do{ o.r1=8+r.below(14); o.r2=8+r.below(14); o.r3=8+r.below(14); }while(o.r1*o.r2*o.r3<900||o.r1*o.r2*o.r3>cap); } else { o.r3=1; do{ o.r1=16+r.below(60); o.r2=16+r.below(60); }while(o.r1*o.r2<900||o.r1*o.r2>cap); } return; }
    o.r1=dim(mn,hi); o.r2=dim(mn,hi); o.r3=d==3?dim(mn,hi):1;
    if(r.chance(0.08)){ int64_t*x= d==3? (int64_t*[]){&o.r1,&o.r2,&o.r3}[r.below(3)] : (int64_t*[]){&o.r1,&o.r2}[r.below(2)]; *x=dim(hi,d==3?60:300); }
    while(o.r1*o.r2*o.r3>maxel){ int64_t*x=&o.r1; if(o.r2>*x) x=&o.r2; if(d==3&&o.r3>*x) x=&o.r3; *x=std::max<int64_t>(2,*x/2); } }
  Op codec_op(int kind,int codec){ Op o; o.kind=kind; o.codec=codec; const CInfo&c=ci[codec]; o.dbl=c.dbl&&r.chance(0.4); shape(o); o.fk=r.pick(fields); o.fseed=1+r.below(1000000); o.amp=1; if(extremes&&r.chance(0.4)) o.amp=pow(10,r.range(-8,8)); else if(r.chance(0.2)) o.amp=pow(10,r.range(-2,2));
    double lo=extremes?-6:-4, hi=-0.3; bool rel=!(c.group==0||c.group==3||c.group==5); if(rel&&!o.dbl&&lo<-5) lo=-5; o.eb=pow(10,lo+(hi-lo)*r.uni()); if(r.chance(0.15)){ static const double e[]={0.1,0.01,0.001,0.05,0.5,0.25}; o.eb=e[r.below(6)]; }
    if(loose) o.eb= rel? 0.1+0.85*r.uni() : pow(10,-1+1.5*r.uni());
    if(!rel){ double sc=o.amp; if(o.fk==12) sc*=1e-20; else if(o.fk==18) sc*=1e-34; else if(o.fk==13) sc*=1e15; if(r.chance(0.9)) o.eb*=sc; }
    if(c.group<2){ if(r.chance(0.5)) { o.bs=0; } else o.bs=r.range(2,r.chance(0.8)?8:16); o.ind=r.chance(0.4); if(c.ebs) o.ebk=r.below(5); if(codec==C_PWREB&&o.ebk==3) o.ebk=1; }
    if(c.group>=2&&codec!=C_3UNS&&codec!=C_3ABS) o.tr=0;
    o.level=r.pick(std::vector<int>{3,3,1,9,19}); if(c.group>=2&&r.chance(0.3)) o.prealloc=1+(codec==C_3UNS?0:r.below(3)); return o; }
  // a relative of an earlier operation: one aspect differs, the rest is equal (caches and leftovers keyed on too little show here)
  Op vary(Op o){ if(o.kind==K_H){ Op h=huff(false); h.alpha=o.alpha; h.typ=o.typ; h.ind=o.ind; if(r.chance(0.5)) h.n=o.n; if(r.chance(0.5)) h.skew=o.skew; return h; } if(o.kind==K_L){ if(r.chance(0.5)) o.level=r.pick(std::vector<int>{3,1,9,19}); else o.fseed=1+r.below(1000000); return o; }
    const CInfo&c=ci[o.codec]; for(int tries=0;tries<8;tries++){ switch(r.below(7)){
      case 0: if(o.codec==C_3UNS) break; if(c.dim==3){ if(r.chance(0.5)) std::swap(o.r1,o.r2); else if(r.chance(0.5)) std::swap(o.r2,o.r3); else std::swap(o.r1,o.r3); } else std::swap(o.r1,o.r2); return o;
      case 1: { if(o.codec==C_3UNS) break; int64_t*d[3]={&o.r1,&o.r2,&o.r3}; int a=r.below(c.dim),b=r.below(c.dim); if(a==b) break; static const int f[]={2,3,4,5}; int q=f[r.below(4)]; if(*d[a]%q||*d[a]/q<2) break; *d[a]/=q; *d[b]*=q; return o; } // as many elements, another shape
      case 2: o.fseed=1+r.below(1000000); return o;
      case 3: o.fk=r.pick(fields); o.fseed=1+r.below(1000000); return o;
      case 4: { bool rel=!(c.group==0||c.group==3||c.group==5); o.eb*=rel?0.2+0.8*r.uni():pow(10,r.sym()); if(rel&&!o.dbl&&o.eb<1e-5) o.eb=1e-5; return o; }
      case 5: if(!c.dbl) break; o.dbl=!o.dbl; if(!o.dbl&&!(c.group==0||c.group==3||c.group==5)&&o.eb<1e-5) o.eb=1e-5; return o;
      default: { int k=r.pick(codecs); const CInfo&d=ci[k]; if(k==o.codec||d.dim!=c.dim||k==C_3UNS||o.codec==C_3UNS) break; if(o.kind==K_D&&(k==C_3DEB||k==C_PWREB)) break; if(d.group>=2&&(o.r1<2||o.r2<2||(d.dim==3&&o.r3<2))) break; Op v=codec_op(o.kind,k); v.r1=o.r1; v.r2=o.r2; v.r3=o.r3; return v; } } }
    o.fseed=1+r.below(1000000); return o; }
  Op huff(bool big){ Op o; o.kind=K_H; o.fseed=1+r.below(1000000); o.alpha= big? (r.chance(0.1)?8:r.below(8)) : r.below(5); if(r.chance(0.1)) o.alpha=8; o.skew=r.chance(0.2)?6+r.below(2):r.below(6); o.n=r.chance(0.15)?1+r.below(4):r.logu(2,big?(th?20000:6000):600); o.share=r.below(r.chance(0.5)?2:6); o.typ=r.chance(0.4); o.ind=r.chance(0.4); if(big&&mix64(o.fseed^77)%100<4) o.n=20000+mix64(o.fseed^78)%180000; return o; }
  Op lossless(int mx){ Op o; o.kind=K_L; o.fseed=1+r.below(1000000); o.fk=r.below(5); o.n=r.chance(0.2)?1+r.below(16):r.chance(0.03)?r.logu(mx,mx*12):r.logu(1,mx); o.level=r.pick(std::vector<int>{3,1,9,19}); return o; }
  Env env(){ Env e; e.fill=r.below(6); e.place=r.below(4); e.stack=r.below(5); e.seed=r.next()>>8; e.clock0=r.chance(0.5)?1700000000000000000ull:r.logu(1,4000000000000000000ull); e.clockmode=r.below(4); e.crand=r.below(1000); return e; }
  SchedCfg sched(){ SchedCfg s; s.seed=r.next()>>8; switch(r.below(4)){ case 0: s.lo=1; s.hi=50; break; case 1: s.lo=1; s.hi=2000; break; case 2: s.lo=100; s.hi=50000; break; default: s.lo=1; s.hi=1000000; } s.hotp=r.pick(std::vector<double>{0.02,0.3,0.9}); s.maxsw=r.pick(std::vector<uint64_t>{20,200,2000}); if(r.chance(0.2)){ s.stall_t=r.below(3); s.stall_at=r.logu(1,300000); } s.first=r.below(4); return s; }
};
static const unsigned SPECIAL=5; // per cent of plans with fields near the largest number of their type; C21: also missing and infinite values
static std::vector<int> codec_list(const std::string&prop){ std::vector<int> v; for(int c=0;c<C_N;c++){ int g=ci[c].group; bool three=c>=C_3OFFLOG; if(three&&!glue_has3d()) continue;
    if(prop=="C06"){ if(g<2&&c!=C_3DEB) v.push_back(c); } else if(prop=="C07"){ if(!three&&g>=2) v.push_back(c); } else if(prop=="C08"){ if(!three&&g>=2) v.push_back(c); } else if(prop=="C17"){ if(!three&&g>=2) v.push_back(c); } else if(prop=="C19"){ if(three||c==C_ONABS||c==C_RELAX||c==C_SZ3) v.push_back(c); } else if(prop=="C14"||prop=="C18"){ if(three) v.push_back(c); } else v.push_back(c); }
  return v; }
static void transparent_io(Gen&g,Plan&p){ Rng&r=g.r; if(r.chance(0.5)) return; int k=1+r.below(3); for(int i=0;i<k;i++){ Fault f; f.kind=r.chance(0.7)?F_SHORT:F_EINTR; f.io=r.chance(0.5)?IO_READ:IO_WRITE; f.op=-1; f.n= f.kind==F_EINTR? 1+r.below(4) : (r.chance(0.3)?0:(r.chance(0.5)?1+(int)r.below(4):-(1+(int)r.below(3)))); f.a=r.chance(0.5)?1+r.below(7):1+r.logu(1,4000); p.faults.push_back(f); } }
// an EINTR that the standard library turns into an error is injected only where the property demands reporting, never as "transparent"
static int hunt_rounds_for(Gen&g){ return g.th?100+g.r.below(900):50+g.r.below(250); }
static Plan gen_arch(Gen&g,const std::string&prop,uint64_t seed0){ Plan p; p.world="arch"; Rng&r=g.r; auto all=codec_list(prop); if(all.empty()) return p; g.swarm(all); p.env=g.env(); p.sched=g.sched(); if(mix64(seed0+53)%1000<20) g.big=0.4;
  bool cp=prop=="C08"||prop=="C17"||prop=="C18"||prop=="C19";
  if(cp){ static const int cf[]={0,1,1,1,5,6,8,8,9,10,14,14,16,17,1,7,19,20,21,21,22,22}; g.fields.clear(); int m=1+r.below(4); for(int i=0;i<m;i++) g.fields.push_back(cf[r.below(22)]); g.loose=r.chance(0.6); }
  bool szp=prop=="C15"; if(szp){ g.extremes=r.chance(0.15); g.fields.clear(); static const int sf[]={0,0,4,8,8,2,3}; if(r.chance(0.75)) for(int i=0;i<3;i++) g.fields.push_back(sf[r.below(7)]); else for(int i=0;i<NFIELD;i++) g.fields.push_back(i); g.loose=r.chance(0.7); g.sizeclass=r.chance(0.75)?10:r.below(10); }
  bool bnd=prop=="C06"||prop=="C07"||prop=="C14"; double hp=cp?0.2:bnd?0.12:0;
  if(hp>0&&mix64(seed0+41)%1000<1000*hp){ // guided search on a small field
    p.env.fill=4; p.env.place=2; Op o=g.codec_op(K_HUNT,r.pick(g.codecs)); if(o.codec==C_3DEB) o.codec=C_3D,o.ebk=0; bool uns=o.codec==C_3UNS,rel=!(ci[o.codec].group==0||ci[o.codec].group==3||ci[o.codec].group==5); int big=bnd?6:2;
    bool huge=mix64(seed0+43)%1000<150; if(huge){ int m=g.th?260000:140000; bool lng=mix64(seed0+61)%10<3; if(uns){ o.r1=2000+r.below(m/4); o.alpha=o.r1*(1+r.below(3)); o.r2=o.r3=1; } else if(ci[o.codec].dim==3){ do{ o.r1=8+r.below(60); o.r2=8+r.below(60); o.r3=8+r.below(60); }while(o.r1*o.r2*o.r3>m||o.r1*o.r2*o.r3<m/8); } else if(lng){ o.r1=2+r.below(3); o.r2=m/(3*o.r1)+r.below(m*2/(3*o.r1)); o.r3=1; if(r.chance(0.5)) std::swap(o.r1,o.r2); } else { do{ o.r1=r.logu(20,2000); o.r2=r.logu(20,2000); }while(o.r1*o.r2>m||o.r1*o.r2<m/8); o.r3=1; } o.n=0; o.tr=0; o.share=1+r.below(3); o.skew=5; o.prealloc=0; if(cp&&r.chance(0.5)){ o.amp=1; o.eb= rel? 0.05+0.9*r.uni() : pow(10,-2.5+2.5*r.uni()); } p.ops.push_back(o); return p; }
    if(uns){ o.r1=5+r.below(4); o.alpha=1+r.below(6); if(mix64(seed0+67)%100<45){ o.r1=5+mix64(seed0+68)%20; o.alpha=1+mix64(seed0+69)%(8*o.r1); } o.r2=o.r3=1; } else if(ci[o.codec].dim==3){ o.r1=2+r.below(big); o.r2=2+r.below(big); o.r3=2+r.below(big); } else { o.r1=2+r.below(2*big); o.r2=2+r.below(2*big); o.r3=1; } static const int hf[]={0,1,1,14,21,22,22,8}; if(cp){ o.fk=hf[r.below(8)]; o.amp=1; o.eb= rel? 0.3+0.65*r.uni() : pow(10,-0.7+1.2*r.uni()); } o.n=0; o.tr=0; o.share=hunt_rounds_for(g); o.skew=5+r.below(30); o.prealloc=0; p.ops.push_back(o); return p; }
  int ne=1+r.below(3),nt=r.chance(0.6)?1:2+r.below(2); int slots=1+r.below(4); std::map<int,int> holder; // slot -> store op
  for(int ep=0;ep<ne;ep++){ bool lastep=ep==ne-1; std::map<int,int> writer; int k=1+r.below(3); if(nt>1) k+=r.below(3);
    for(int i=0;i<k;i++){ int t=r.below(nt); bool st=holder.empty()||(ep==0? i<(k+1)/2||r.chance(0.4) : r.chance(0.35));
      if(st){ int s=r.below(slots); if(writer.count(s)&&writer[s]!=t) continue; bool used=false; for(auto&o:p.ops) if(o.kind==K_LOAD&&o.ep==ep&&o.n==s&&o.thread!=t) used=true; if(used) continue; writer[s]=t; Op o=g.codec_op(K_STORE,r.pick(g.codecs)); if(o.codec==C_3UNS) o.alpha=o.n; else o.alpha=0; if(!holder.empty()&&r.chance(0.25)){ auto it=holder.begin(); std::advance(it,r.below(holder.size())); o=g.vary(p.ops[it->second]); } o.n=s; o.ep=ep; o.thread=t; o.prealloc=0; holder[s]=p.ops.size(); p.ops.push_back(o); }
      else { auto it=holder.begin(); std::advance(it,r.below(holder.size())); int s=it->first; int tt=t; if(writer.count(s)) tt=writer[s]; Op l; l.kind=K_LOAD; l.ref=it->second; l.ep=ep; l.thread=tt; l.n=s; l.prealloc=r.chance(0.3); p.ops.push_back(l); } }
    if(lastep) for(auto&h:holder){ int tt=writer.count(h.first)?writer[h.first]:r.below(nt); Op l; l.kind=K_LOAD; l.ref=h.second; l.ep=ep; l.thread=tt; l.n=h.first; l.prealloc=r.chance(0.3); p.ops.push_back(l); } 
    if(!lastep&&r.chance(0.35)){ Fault f; f.op=ep; if(r.chance(0.6)){ f.kind=F_KILL_STEP; f.n=r.logu(1,20000000); } else { f.kind=F_KILL_IO; f.n=1+r.below(12); f.a=r.chance(0.5)?0:1+r.below(3000); } p.faults.push_back(f); } }
  transparent_io(g,p); return p; }
Plan gen_plan(const std::string&prop,uint64_t seed,bool thorough){
  Gen g(mix64(seed)^hash_str(prop),thorough); g.thin=mix64(seed+59)%1000<40; Rng&r=g.r; Plan p; std::vector<int> all=codec_list(prop);
  if(prop=="C06"||prop=="C07"||prop=="C08"||prop=="C14"||prop=="C17"||prop=="C18"||prop=="C19"||prop=="C15") p=gen_arch(g,prop,seed);
  else { g.swarm(all); p.env=g.env(); p.sched=g.sched(); if((prop=="C02"||prop=="C03"||prop=="C04"||prop=="C05")&&mix64(seed+47)%1000<30) g.big=0.5;
    if(prop=="C01"){ p.world="conc"; if(r.chance(0.7)&&g.sizeclass>6) g.sizeclass=4; int nt=2+r.below(3); for(int t=0;t<nt;t++){ int k=1+r.below(2); for(int i=0;i<k;i++){ Op o; double u=r.uni(); if(u<0.62||(t&&u<0.7)){ o=g.codec_op(u<0.4?K_RT:u<0.55?K_D:K_C,r.pick(g.codecs)); if(o.kind==K_D&&(o.codec==C_3DEB||o.codec==C_PWREB)) o.kind=K_RT;
              if(!p.ops.empty()&&r.chance(0.45)){ const Op&b=p.ops[r.below(p.ops.size())]; if(b.kind<=K_C){ Op c=o; o=b; o.kind=c.kind==K_D?K_RT:c.kind; if(ci[c.codec].nc==ci[b.codec].nc&&ci[c.codec].dim==ci[b.codec].dim&&!ci[c.codec].ebs&&!ci[b.codec].ebs&&b.codec!=C_3UNS&&c.codec!=C_3UNS&&(!b.dbl||ci[c.codec].dbl)&&r.chance(0.5)&&ci[c.codec].group>=2==(ci[b.codec].group>=2)) { o.codec=c.codec; } o.share=1; o.prealloc=0; } } }
            else if(u<0.85) o=g.huff(r.chance(0.2)); else o=g.lossless(5000); o.thread=t; if(o.kind==K_RT&&o.share) {} p.ops.push_back(o); } } }
    else if(prop=="C02"){ p.world="hist"; int n=1+r.below(thorough?8:5); for(int i=0;i<n;i++){ double u=r.uni(); Op o; if(i&&r.chance(0.4)){ o=p.ops[r.below(p.ops.size())]; if(r.chance(0.7)) o=g.vary(o); } else if(u<0.8){ g.sizeclass=r.below(10); o=g.codec_op(u<0.55?K_RT:u<0.7?K_D:K_C,r.pick(g.codecs)); if(o.kind==K_D&&(o.codec==C_3DEB||o.codec==C_PWREB)) o.kind=K_RT; } else if(u<0.92) o=g.huff(r.chance(0.4)); else o=g.lossless(20000); p.ops.push_back(o); } }
    else if(prop=="C03"){ p.world="mem"; int n=1+r.below(3); for(int i=0;i<n;i++){ double u=r.uni(); Op o; if(i&&r.chance(0.25)) o=g.vary(p.ops[r.below(p.ops.size())]); else if(u<0.88){ g.sizeclass=r.below(10); o=g.codec_op(u<0.7?K_RT:u<0.8?K_D:K_C,r.pick(g.codecs)); if(o.kind==K_D&&(o.codec==C_3DEB||o.codec==C_PWREB)) o.kind=K_RT; if(r.chance(0.3)) o.eb*=pow(10,-r.uni()*4); } else if(u<0.95) o=g.huff(r.chance(0.5)); else o=g.lossless(20000); p.ops.push_back(o); } p.env.place=r.below(4); }
    else if(prop=="C04"){ p.world="leak"; p.par["rounds"]=3+r.below(3); if(g.sizeclass>7) g.sizeclass=6; int n=1+r.below(3); for(int i=0;i<n;i++){ double u=r.uni(); Op o; if(i&&r.chance(0.25)) o=g.vary(p.ops[r.below(p.ops.size())]); else if(u<0.85){ o=g.codec_op(u<0.6?K_RT:u<0.72?K_D:K_C,r.pick(g.codecs)); if(o.kind==K_D&&(o.codec==C_3DEB||o.codec==C_PWREB)) o.kind=K_RT; } else if(u<0.93) o=g.huff(false); else o=g.lossless(5000); p.ops.push_back(o); } }
    else if(prop=="C05"){ p.world="oom"; if(g.sizeclass>7) g.sizeclass=6; int n=1+r.below(3); for(int i=0;i<n;i++){ double u=r.uni(); Op o; if(i&&r.chance(0.25)) o=g.vary(p.ops[r.below(p.ops.size())]); else if(u<0.85){ o=g.codec_op(u<0.6?K_RT:u<0.75?K_D:K_C,r.pick(g.codecs)); if(o.kind==K_D&&(o.codec==C_3DEB||o.codec==C_PWREB)) o.kind=K_RT; } else if(u<0.92) o=g.huff(false); else o=g.lossless(8000); p.ops.push_back(o); }
      p.par["pct"]=1; Fault f; f.op=r.below(n); double u=r.uni(); f.kind=u<0.55?F_ALLOC_ONCE:u<0.8?F_ALLOC_FROM:F_ALLOC_SIZE; f.n= f.kind==F_ALLOC_SIZE? r.logu(16,4000000) : r.below(1u<<20); p.faults.push_back(f); }
    else if(prop=="C21"){ p.world="work"; int n=1+r.below(3); if(r.chance(0.35)) { g.big=0.7; g.bigcap=thorough?160000:60000; } g.thin=r.chance(0.25); for(int i=0;i<n;i++){ double u=r.uni(); Op o; if(i&&r.chance(0.25)) o=g.vary(p.ops[r.below(p.ops.size())]); else if(u<0.8){ g.sizeclass=r.below(10); o=g.codec_op(u<0.5?K_RT:u<0.65?K_D:K_C,r.pick(g.codecs)); if(o.kind==K_D&&(o.codec==C_3DEB||o.codec==C_PWREB)) o.kind=K_RT; if(r.chance(0.3)) o.eb*=pow(10,-r.uni()*4); } else if(u<0.92) o=g.huff(r.chance(0.6)); else o=g.lossless(r.chance(0.3)?400000:20000); p.ops.push_back(o); }
      if(n>1&&r.chance(0.3)){ Fault f; f.op=r.below(n-1); f.kind=r.chance(0.5)?F_ALLOC_ONCE:F_ALLOC_SIZE; f.n=f.kind==F_ALLOC_SIZE?r.logu(16,400000):1+r.below(40); p.faults.push_back(f); } }
    else if(prop=="C13"){ p.world="stream"; int nt=r.chance(0.5)?1:2+r.below(2); for(int t=0;t<nt;t++){ int k=1+r.below(2); for(int i=0;i<k;i++){ Op o=g.huff(r.chance(0.6)); o.thread=t; p.ops.push_back(o); } } }
    else if(prop=="C09"){ p.world="loss"; Op o; if(r.chance(0.5)) o=g.codec_op(K_C,r.pick(g.codecs)); else o=g.lossless(thorough?200000:40000); if(o.kind==K_C&&o.codec==C_PWREB) o.codec=C_PWR,o.dbl=0,o.ebk=0; p.ops.push_back(o); double u=r.uni(); p.par["d64"]=r.chance(0.3);
      if(u<0.25) p.par["mode"]=0; else if(u<0.8){ p.par["mode"]=1; p.par["cut"]=r.chance(0.4)?r.below(40):r.next()>>20; } else { p.par["mode"]=2; Fault f; f.kind=F_KILL_IO; f.op=0; f.n=1+r.below(4); f.a=1+r.below(5000); p.faults.push_back(f); }
      if(r.chance(0.3)){ Fault f; f.kind=F_SHORT; f.op=r.below(2); f.io=f.op?IO_READ:IO_WRITE; f.n=r.chance(0.5)?0:1+r.below(3); f.a=1+r.below(3000); p.faults.push_back(f); } }
    else if(prop=="C10"||prop=="C11"||prop=="C12"||prop=="C20"){ bool prog=prop=="C12"||prop=="C20"||r.chance(0.3); if(!prog){ p.world="io"; Op o; o.fseed=1+r.below(1000000); o.fk=r.below(5); bool rd=prop=="C10"; o.kind=rd?K_READ:K_WRITE; o.typ=rd?r.below(7):r.below(3); o.n=8*(r.chance(0.2)?r.below(4):(int64_t)r.logu(1,r.chance(0.8)?4000:40000)); if(r.chance(0.2)) o.n=(o.n+1023)/1024*8192/8; if(!rd&&o.n==0) o.n=8; if(mix64(seed+71)%100<12){ o.n=((int64_t)1<<(12+mix64(seed+72)%9))*(1+mix64(seed+73)%3)+8*((int64_t)(mix64(seed+74)%3)-1); if(o.n>(1<<21)-64) o.n=(1<<21)-64; } /* sizes at and next to powers of two, up to 2 MB */ p.ops.push_back(o);
          if(rd){ double u=r.uni(); if(u<0.1) p.par["missing"]=1; int k=u<0.1?0:r.below(4); for(int i=0;i<k;i++){ Fault f; f.op=0; switch(r.below(9)){ case 0: case 1: case 2: f.kind=F_SHORT; f.io=IO_READ; f.n=r.chance(0.5)?0:1+r.below(4); f.a=r.logu(1,9000); break; case 3: f.kind=F_EINTR; f.io=IO_READ; f.n=1+r.below(4); break; case 4: f.kind=F_EIO; f.io=IO_READ; f.n=r.chance(0.7)?1+r.below(4):-(1+(int)r.below(3)); break; case 5: f.kind=r.chance(0.5)?F_ENOENT:r.chance(0.5)?F_EACCES:F_EMFILE; f.io=IO_OPEN; f.n=1; break; case 6: case 7: f.kind=F_SHRINK; f.io=IO_READ; f.n=1+r.below(3); f.a=o.n?r.below(o.n):0; break; case 8: f.kind=r.chance(0.5)?F_SEEKFAIL:F_STATFAIL; f.io=f.kind==F_SEEKFAIL?IO_SEEK:IO_OTHER; f.n=1+r.below(3); break; } p.faults.push_back(f); } }
          else { if(r.chance(0.4)) p.par["stale"]=r.below(3)?(int64_t)r.logu(1,50000):o.n; double u=r.uni(); if(u<0.25) p.par["capacity"]=r.below(o.n+1); else { int k=r.below(4); for(int i=0;i<k;i++){ Fault f; f.op=0; switch(r.below(8)){ case 0: case 1: case 2: f.kind=F_SHORT; f.io=IO_WRITE; f.n=r.chance(0.5)?0:1+r.below(4); f.a=r.logu(1,9000); break; case 3: f.kind=F_EINTR; f.io=IO_WRITE; f.n=1+r.below(3); break; case 4: f.kind=r.chance(0.5)?F_EIO:F_ENOSPC; f.io=IO_WRITE; f.n=r.chance(0.5)?1+r.below(3):-(1+(int)r.below(3)); break; case 5: f.kind=r.chance(0.4)?F_EACCES:r.chance(0.5)?F_EMFILE:F_ENOSPC; f.io=IO_OPEN; f.n=1; break; case 6: f.kind=F_CLOSEFAIL; f.io=IO_CLOSE; f.n=1; break; case 7: f.kind=F_ENOSPC; f.io=IO_CLOSE; f.n=1; break; } p.faults.push_back(f); } } } }
      else { p.world="prog"; Op o; o.kind=K_PROG; static const int t10[]={0,1,2,2,3,4,5},t11[]={2,2,4,5},t12[]={0,1,2,2,2,3,4,5}; o.typ= prop=="C10"?t10[r.below(7)]:prop=="C11"?t11[r.below(4)]:t12[r.below(8)]; if((o.typ==4&&!prog_cp3d)||(o.typ==5&&!prog_cp3du)) o.typ=2; o.fk=r.pick(std::vector<int>{0,1,5,8,14,0,8}); o.fseed=1+r.below(1000000); o.amp=1; o.ind=r.chance(0.5); o.r1=8+r.below(20); o.r2=8+r.below(20); o.r3=1; if(mix64(seed+67)%100<4){ o.r1=60+mix64(seed+68)%140; o.r2=60+mix64(seed+69)%140; } if(o.typ==5){ o.r1=5+r.below(100); o.r2=o.r3=1; o.n=1+r.below(200); } if(o.typ==4){ o.r1=5+r.below(5); o.r2=5+r.below(5); o.r3=5+r.below(5); } o.eb=pow(10,-3+2*r.uni()); p.ops.push_back(o);
        if(prop=="C12"||prop=="C20"){ int na=1+r.below(4); p.par["attempts"]=na+0; for(int a=0;a+1<na;a++){ Fault f; f.op=a; if(r.chance(0.5)){ f.kind=F_KILL_STEP; f.n=r.logu(1,20000000); } else { f.kind=F_KILL_IO; f.n=1+r.below(40); f.a=r.chance(0.4)?0:1+r.below(2000); } p.faults.push_back(f); } if(r.chance(0.5)){ Fault f; f.op=-1; f.kind=F_SHORT; f.io=r.chance(0.5)?IO_READ:IO_WRITE; f.n=r.chance(0.5)?0:1+r.below(10); f.a=r.logu(1,4000); p.faults.push_back(f); } }
        else if(prop=="C10"){ double u=r.uni(); if(u<0.15) p.par["missing"]=1+r.below(3); else { Fault f; f.op=-1; switch(o.typ==5?(r.chance(0.5)?0:4):r.below(5)){ case 0: f.kind=F_SHORT; f.io=IO_READ; f.n=0; f.a=r.logu(1,9000); break; case 1: f.kind=F_EIO; f.io=IO_READ; f.n=1+r.below(5); break; case 2: case 3: f.kind=F_SHRINK; f.io=IO_READ; f.n=1+r.below(6); f.a=r.below(o.r1*o.r2*o.r3*4); break; case 4: f.kind=F_EACCES; f.io=IO_OPEN; f.n=1+r.below(o.typ==0?1:o.typ>=4?3:2); break; } p.faults.push_back(f); } }
        else { double u=r.uni(); if(u<0.35) p.par["capacity"]=r.below(o.r1*o.r2*o.r3*4*(o.typ>=4?3:2)+1); else { Fault f; f.op=-1; switch(r.below(5)){ case 0: f.kind=F_SHORT; f.io=IO_WRITE; f.n=0; f.a=r.logu(1,9000); break; case 1: f.kind=F_EIO; f.io=IO_WRITE; f.n=1+r.below(3); break; case 2: f.kind=F_ENOSPC; f.io=IO_WRITE; f.n=1+r.below(3); break; case 3: f.kind=F_EACCES; f.io=IO_OPEN; f.n=3+r.below(3); break; case 4: f.kind=F_CLOSEFAIL; f.io=IO_CLOSE; f.n=3+r.below(3); break; } p.faults.push_back(f); } } } } }
  if((prop=="C02"||prop=="C03"||prop=="C06"||prop=="C07"||prop=="C14"||prop=="C21")&&mix64(seed+79)%100<SPECIAL) for(auto&o:p.ops) if((o.kind<=K_D||o.kind==K_STORE)&&mix64(o.fseed+79)%100<60){ bool lg=o.codec==C_PWR||o.codec==C_PWREB||o.codec==C_OFFLOG||o.codec==C_ONLOG||o.codec==C_BILIN||o.codec==C_3OFFLOG||o.codec==C_3ONLOG||o.codec==C_3UNS;
    o.fk=o.fk%NFIELD+NFIELD*(prop=="C21"?1+mix64(o.fseed+80)%5:thorough||lg?3:5); }
  p.prop=prop; p.seed=seed; if(p.world.empty()) p.world="none"; return p; }

// ================================================================ minimiser
static void drop_op(Plan&p,size_t i){ p.ops.erase(p.ops.begin()+i); for(size_t j=0;j<p.ops.size();){ if(p.ops[j].kind==K_LOAD){ if(p.ops[j].ref==(int64_t)i){ drop_op(p,j); if(j<i) i--; continue; } if(p.ops[j].ref>(int64_t)i) p.ops[j].ref--; } j++; }
  if(p.world=="oom"){ for(size_t k=0;k<p.faults.size();) if(p.faults[k].op==(int)i) p.faults.erase(p.faults.begin()+k); else { if(p.faults[k].op>(int)i) p.faults[k].op--; k++; } } }
bool shrink(Plan&p,RunResult&r,double seconds,std::string*log){ auto t0=std::chrono::steady_clock::now(); auto left=[&]{ return std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count()<seconds; };
  Plan best=p; RunResult br=r; int tries=0,acc=0; auto attempt=[&](const Plan&c){ if(!left()) return false; tries++; RunResult x=run_plan(c); if(x.viol&&!x.invalid&&x.cls==br.cls){ best=c; br=x; acc++; return true; } return false; };
  bool prog=true; while(prog&&left()){ prog=false;
    for(size_t i=best.ops.size();i-->0;) if(best.ops.size()>1&&i<best.ops.size()){ Plan c=best; drop_op(c,i); if(!c.ops.empty()&&attempt(c)) prog=true; }
    for(size_t i=best.faults.size();i-->0;) if(i<best.faults.size()){ Plan c=best; c.faults.erase(c.faults.begin()+i); if(attempt(c)) prog=true; }
    { Plan c=best; c.env=Env(); c.env.fill=3; c.env.seed=best.env.seed; if(plan_text(c)!=plan_text(best)&&attempt(c)) prog=true; }
    if(best.env.place){ Plan c=best; c.env.place=0; if(attempt(c)) prog=true; } if(best.env.clockmode){ Plan c=best; c.env.clockmode=0; if(attempt(c)) prog=true; }
    if(!best.replay&&best.sched.maxsw>1){ Plan c=best; c.sched.maxsw=best.sched.maxsw/2; if(attempt(c)) prog=true; } if(best.sched.stall_t>=0){ Plan c=best; c.sched.stall_t=-1; if(attempt(c)) prog=true; }
    for(size_t i=0;i<best.ops.size();i++){ const Op o=best.ops[i]; auto tryset=[&](int64_t Op::*m,int64_t v){ if(best.ops[i].*m==v) return; Plan c=best; int64_t old=c.ops[i].*m; (void)old; c.ops[i].*m=v; if(attempt(c)) prog=true; };
      int64_t mn=(o.kind==K_PROG)?8:2; for(int64_t Op::*m:{&Op::r1,&Op::r2,&Op::r3}) { int64_t v=best.ops[i].*m; if(v>mn&&o.codec!=C_3UNS){ int64_t before=v; tryset(m,std::max(mn,v/2)); if(best.ops[i].*m==before) tryset(m,v-1); } }
      if((o.kind==K_H||o.kind==K_L||o.kind==K_READ||o.kind==K_WRITE)&&o.n>8){ tryset(&Op::n,std::max<int64_t>(8,o.n/2/8*8)); } if(o.share>0&&o.kind==K_H) tryset(&Op::share,o.share-1);
      tryset(&Op::bs,0); tryset(&Op::ind,0); tryset(&Op::prealloc,0); if(o.kind<=K_D||o.kind==K_STORE) tryset(&Op::level,3); if(best.ops[i].amp!=1&&best.ops[i].amp!=0){ Plan c=best; c.ops[i].amp=1; if(attempt(c)) prog=true; } } }
  // turn the seeded schedule into an explicit list of switches and trim it
  bool multi=false; for(auto&o:best.ops) if(o.thread>0) multi=true; size_t n0=0,n1=0;
  if(multi&&!best.replay&&left()){ Plan c=best; c.replay=true; c.lists=br.lists; for(auto&l:c.lists) n0+=l.second.size(); if(attempt(c)){
      for(auto&e:c.lists){ int ep=e.first; size_t chunk=best.lists[ep].size(); while(chunk>=1&&left()){ bool any=false; for(size_t i=0;i<best.lists[ep].size()&&left();){ Plan d=best; auto&l=d.lists[ep]; l.erase(l.begin()+i,l.begin()+std::min(l.size(),i+chunk)); if(attempt(d)) any=true; else i+=chunk; } if(chunk==1&&!any) break; if(chunk>1) chunk/=2; else if(!any) break; } } for(auto&l:best.lists) n1+=l.second.size(); } }
  if(log){ char b[200]; snprintf(b,sizeof b,"minimised in %d attempts (%d accepted): %zu operations, %zu faults, explicit switches %zu -> %zu",tries,acc,best.ops.size(),best.faults.size(),n0,n1); *log=b; }
  p=best; r=br; return acc>0; }
}
