// Exhaustive exploration of the real code under the simulated kernel.
#include "explore.h"
#include "shr.h"
#include <cstdio>
#include <cstdlib>
#include <csignal>
#include <unistd.h>
#include <time.h>

enum TType : uint8_t { T_START, T_STEP, T_CHOICE, T_KILL, T_EVT, T_BORN, T_POWER, T_INTR };
struct Tr { TType t; int8_t p; int16_t arg; Op op; Res res; bool done; bool epi; uint8_t nen; };

struct HSet { // visited set: 64-bit fingerprint -> smallest number of operations used to reach it
  std::vector<uint64_t> k; std::vector<uint8_t> v; size_t n=0; HSet(){ k.assign(1<<16,0); v.assign(1<<16,0);} 
  int put(uint64_t x,uint8_t d){ // 0 new, 1 known but improved, 2 known
    if(x==0) x=1; if(n*10>k.size()*6) grow(); size_t m=k.size()-1,i=x&m; while(k[i]&&k[i]!=x) i=(i+1)&m; if(!k[i]){ k[i]=x; v[i]=d; n++; return 0;} if(d<v[i]){ v[i]=d; return 1;} return 2; }
  void grow(){ std::vector<uint64_t> ok; ok.swap(k); std::vector<uint8_t> ov; ov.swap(v); k.assign(ok.size()*2,0); v.assign(ok.size()*2,0); size_t m=k.size()-1; for(size_t j=0;j<ok.size();j++) if(ok[j]){ size_t i=ok[j]&m; while(k[i]) i=(i+1)&m; k[i]=ok[j]; v[i]=ov[j]; } } };

static Scenario *S; static JobResult *R_; static std::vector<Tr> g_tr; static HSet *g_seen; static bool g_stop; static std::string g_fail;
static int g_shard,g_nshards; static const char*g_outdir; static const char*g_prop; static double g_t0;
static std::vector<std::vector<Tr>> g_leaf; static uint64_t g_leafno, g_leafmod=1;
static uint64_t g_outcomes[4096];
static bool g_setting_up; static uint8_t g_started[8][2][32];   // program operations that some execution reached
static double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }

struct Full { Snap s; World w; };
static void save(Full&f){ sim_save(f.s); f.w=*W; }
static void restore(const Full&f){ sim_restore(f.s); *W=f.w; }
static H128 full_hash(){ H128 h=sim_hash(); int np=K->nproc; for(int p=0;p<np;p++){ Act&a=W->A[p]; int64_t x[]={W->pc[p],a.nopen,K->p[p].st!=PS_IDLE?1:0}; h=hash_bytes(x,sizeof x,h); if(K->p[p].st!=PS_IDLE&&K->p[p].st!=PS_DEAD) h=hash_bytes(&a.op,sizeof a.op,h); int m=MAXH; while(m>0&&!a.h[m-1]) m--; h=hash_bytes(a.h,m*sizeof(void*),h); if(a.bwmem){ h=hash_bytes(a.bw,sizeof a.bw,h); h=hash_bytes(a.bwfd,sizeof a.bwfd,h); } }
  int64_t x[]={W->kills,W->evtleft,S->alpha?W->nextid:0,W->respawns,W->power|W->intrs<<8}; h=hash_bytes(x,sizeof x,h); W->spec.add_hash(h); return h; }

static bool leak_check(int p,const Op&o,const Res&r,std::string&why){
  Act&a=W->A[p]; char b[160];
  int lk=sim_lockcount(p); if(lk&&!K->faults_used){ snprintf(b,sizeof b,"process %d still holds a lock after %s",p,op_str(o).c_str()); why=b; return false; }
  if(lk&&K->faults_used){ snprintf(b,sizeof b,"process %d still holds a lock after %s failed",p,op_str(o).c_str()); why=b; return false; }
  if(!sim_heap_check(p)){ why="heap corrupted (write past an allocation) by "+op_str(o); return false; }
  if(!S->leakcheck) return true;
  bool failed_open=(o.k==O_OPEN||o.k==O_OPENBAD||o.k==O_BWOPEN)&&r.rc==0;
  if(failed_open||o.k==O_INIT){ if(sim_fdcount(p)!=a.fd0||sim_mapcount(p)!=a.map0||sim_alloccount(p)!=a.al0){ snprintf(b,sizeof b,"%s leaks: descriptors %d -> %d, mappings %d -> %d, allocations %lld -> %lld",op_str(o).c_str(),a.fd0,sim_fdcount(p),a.map0,sim_mapcount(p),(long long)a.al0,(long long)sim_alloccount(p)); why=b; return false; } }
  if((o.k==O_CLOSE||o.k==O_BWCLOSE)&&a.nopen==0&&a.nbw==0&&!K->faults_used){ int base=0,mb=0; for(int i=0;i<4;i++) if(a.evtfd[i]>=0) base++; if(a.bwmem) base++,mb++; if(sim_fdcount(p)!=base||sim_mapcount(p)!=mb||sim_alloccount(p)){ snprintf(b,sizeof b,"after closing every handle process %d still has %d descriptors, %d mappings, %lld allocations",p,sim_fdcount(p)-base,sim_mapcount(p),(long long)sim_alloccount(p)); why=b; return false; } }
  return true; }

static void skip_closed(int p){ if(g_setting_up) return; if(S->alpha&&!W->power) return; auto&pg=(W->respawns>>p&1)?S->reborn:S->prog; if(p>=(int)pg.size()) return; while(W->pc[p]<(int)pg[p].size()){ const Op&o=pg[p][W->pc[p]]; if(o.k==O_INIT||o.k==O_OPEN||o.k==O_OPENBAD||o.k==O_BWOPEN) return; bool have=o.k>O_BWOPEN? W->A[p].bw[o.h&15]!=nullptr : W->A[p].h[o.h]!=nullptr; if(have) return; W->pc[p]++; } }
static bool post(int p,Tr&t,std::string&why){
  if(g_viol){ why=g_violmsg; return false; }
  Proc&pr=K->p[p];
  if(pr.st==PS_OPDONE){ pr.st=PS_IDLE; pr.err=0; pr.nsys=0; pr.nintr=pr.nintrw=0; pr.pk=0; pr.pobj=pr.pobj2=0; pr.faults_in_op=0; Act&a=W->A[p]; t.res=a.res; t.done=true;
    if(!W->spec.ret(p,a.op,a.res,why)) return false;
    g_outcomes[(fold(a.op.k,a.res.rc,a.res.n)>>7)&4095]=1;
    if(!leak_check(p,a.op,a.res,why)) return false;
    skip_closed(p);
    memset(&a.op,0,sizeof a.op); memset(&a.res,0,sizeof a.res); }
  else if(pr.st==PS_EPW||pr.st==PS_LOCK) R_->blocked++;
  return true; }

static void prep_proc(int p){ Act&a=W->A[p]; memset(&a,0,sizeof a); for(int i=0;i<4;i++) a.evtfd[i]=-1; for(int i=0;i<S->evtinit;i++) a.evtfd[i]=sim_evt_fd(p,i); }
static bool apply(Tr&t,std::string&why){
  int p=t.p; t.done=false; R_->transitions++; t.nen=0; for(int q=0;q<K->nproc;q++) if(K->p[q].st!=PS_IDLE&&sim_enabled(q)) t.nen++;
  switch(t.t){
  case T_START: { Act&a=W->A[p]; a.op=t.op; if(!g_setting_up&&!S->alpha&&W->pc[p]>0) g_started[p&7][(W->respawns>>p&1)][(W->pc[p]-1)&31]=1; if(!a.op.id){ a.op.id=W->nextid; } int cnt=a.op.k==O_WRITEV?a.op.n:(a.op.k==O_WRITE||a.op.k==O_APPSET||a.op.k==O_APPGS)?1:0; if(cnt) W->nextid+=cnt; if(!cnt) a.op.id=t.op.id; t.op=a.op;
      memset(&a.res,0,sizeof a.res); W->spec.call(p,a.op); a.fd0=sim_fdcount(p); a.map0=sim_mapcount(p); a.al0=sim_alloccount(p); K->p[p].nsys=0; sim_resume(p); return post(p,t,why); }
  case T_STEP: sim_resume(p); return post(p,t,why);
  case T_CHOICE: K->p[p].alt=t.arg; K->p[p].st=PS_RUN; sim_resume(p); return post(p,t,why);
  case T_KILL: W->spec.killed(p); sim_kill(p); memset(&W->A[p],0,sizeof(Act)); for(int i=0;i<4;i++) W->A[p].evtfd[i]=-1; W->kills--; R_->kills++; return true;
  case T_INTR: sim_interrupt(p); W->intrs--; R_->kills++; sim_resume(p); return post(p,t,why);
  case T_EVT: K->evt[t.p]=t.arg; W->spec.set_evt(t.p,t.arg); W->evtleft--; return true;
  case T_BORN: sim_respawn(p); if(!S->reuse_pid) K->p[p].pid+=100; W->spec.respawn(p); prep_proc(p); W->pc[p]=0; W->respawns|=1<<p; return true;
  case T_POWER: for(int q=0;q<K->nproc;q++){ W->spec.killed(q); memset(&W->A[q],0,sizeof(Act)); for(int i=0;i<4;i++) W->A[q].evtfd[i]=-1; } sim_powerfail(); W->power=1; R_->kills++; return true; }
  return true; }

static bool any_enabled(){ for(int p=0;p<K->nproc;p++) if(K->p[p].st!=PS_IDLE&&sim_enabled(p)) return true; return false; }
static bool quiescent(std::string&why){
  if(any_enabled()) return true; R_->quiescent++;
  for(int p=0;p<K->nproc;p++){ Proc&pr=K->p[p]; char b[200];
    if(pr.st==PS_LOCK){ snprintf(b,sizeof b,"process %d waits for a lock nobody will release (%s)",p,op_str(W->A[p].op).c_str()); why=b; return false; }
    if(pr.st==PS_EPW){ if(W->spec.must_be_enabled(p,why)) return false; if(W->spec.evt_pending(p)){ snprintf(b,sizeof b,"process %d sleeps in %s although a registered descriptor is ready",p,op_str(W->A[p].op).c_str()); why=b; return false; } }
    if(pr.st==PS_DEAD||pr.st==PS_OFF) continue;
    for(int h=0;h<MAXH;h++) if(W->A[p].h[h]){ if(pr.st!=PS_IDLE&&W->A[p].op.h==h) continue;
      bool mr=W->spec.must_be_readable(p,h), mn=W->spec.must_not_be_readable(p,h); if(!mr&&!mn) continue;
      int fd=shr_get_selectable_fd(W->A[p].h[h]); bool rdy=sim_ready_fd(p,fd);
      if(mr&&!rdy&&!g_lax_bw){ snprintf(b,sizeof b,"descriptor of handle h%d of process %d is not readable although it can read a message",h,p); why=b; return false; }
      if(mn&&rdy){ snprintf(b,sizeof b,"descriptor of handle h%d of process %d is readable after its own read left nothing and nobody has written",h,p); why=b; return false; } } }
  for(int p=0;p<K->nproc;p++){ Act&a=W->A[p]; if(!a.bwmem||K->p[p].st==PS_DEAD||K->p[p].st==PS_OFF) continue; for(int h=0;h<16;h++) if(a.bw[h]&&a.bwfd[h]>=0){ if(K->p[p].st!=PS_IDLE&&a.op.h==h) continue; char b[200]; bool rdy=sim_ready_fd(p,a.bwfd[h]);
    if(W->spec.must_be_readable(p,h)&&!rdy){ snprintf(b,sizeof b,"descriptor of wait handle %d of process %d is not readable although it was woken",h,p); why=b; return false; }
    if(W->spec.must_not_be_readable(p,h)&&rdy){ snprintf(b,sizeof b,"descriptor of wait handle %d of process %d is readable although nothing woke it",h,p); why=b; return false; } } }
  if(S->inv&&!S->inv(why)) return false;
  return true; }

static bool start_state(std::string&why){
  SC=S->cfg; bool mic=S->micro; SC.micro=false; SC.faults=false; g_init_writes_count=S->init_race; g_race=S->init_race; g_learn=S->learn;
  sim_reset(S->nproc); *W=World(); W->spec.reset(S->nproc); for(int p=0;p<NPROC;p++){ memset(&W->A[p],0,sizeof(Act)); W->pc[p]=0; for(int i=0;i<4;i++) W->A[p].evtfd[i]=-1; }
  for(int p=0;p<S->nproc;p++) prep_proc(p);
  g_lax_bw=false; K->fault_budget=0;
  g_setting_up=true; struct Done { ~Done(){ g_setting_up=false; } } done_;
  for(auto&x:S->setup){ Tr t; memset(&t,0,sizeof t); t.t=T_START; t.p=x.first; t.op=x.second; if(!apply(t,why)){ why="during setup: "+why; return false; } if(!t.done){ why="setup operation did not complete: "+op_str(x.second); return false; }
    if(!quiescent(why)) return false; }
  W->kills=S->kills; W->intrs=S->intrs; W->evtleft=S->evts; W->nops=0; K->fault_budget=S->faults; K->faults_used=0; SC.faults=S->faults>0; SC.micro=mic; SC.fine=mic;
  R_->transitions=R_->transitions; return true; }

static void list(std::vector<Tr>&out){
  Tr t; memset(&t,0,sizeof t);
  for(int p=0;p<K->nproc;p++) if(K->p[p].st==PS_CHOICE){ for(int a=0;a<K->p[p].nalt;a++){ t.t=T_CHOICE; t.p=p; t.arg=a; out.push_back(t);} return; }
  for(int p=0;p<K->nproc;p++){ Proc&pr=K->p[p];
    if(pr.st!=PS_IDLE&&sim_enabled(p)){ t.t=T_STEP; t.p=p; t.arg=0; out.push_back(t); continue; }
    if(pr.st==PS_IDLE){ if(S->alpha&&!W->power){ if(W->nops<S->depth){ std::vector<Op> ops; S->alpha(p,ops); for(auto&o:ops){ t.t=T_START; t.p=p; t.op=o; out.push_back(t);} memset(&t.op,0,sizeof t.op);} }
      else { auto&pg=(W->respawns>>p&1)?S->reborn:S->prog; if(p<(int)pg.size()&&W->pc[p]<(int)pg[p].size()){ t.t=T_START; t.p=p; t.op=pg[p][W->pc[p]]; out.push_back(t); memset(&t.op,0,sizeof t.op);} } }
    if(pr.st==PS_DEAD&&!(W->respawns>>p&1)&&p<(int)S->reborn.size()&&!S->reborn[p].empty()){ t.t=T_BORN; t.p=p; out.push_back(t); } }
  if(S->powerfail&&!W->power){ t.t=T_POWER; t.p=0; t.arg=0; out.push_back(t); }
  if(W->kills>0) for(int p=0;p<K->nproc;p++) if((S->killmask>>p&1)&&K->p[p].st!=PS_DEAD&&K->p[p].st!=PS_OFF&&(S->alpha? true : (K->p[p].st!=PS_IDLE||W->pc[p]>0||W->A[p].nopen>0))){ t.t=T_KILL; t.p=p; out.push_back(t); }
  if(W->intrs>0) for(int p=0;p<K->nproc;p++) if((K->p[p].st==PS_LOCK||K->p[p].st==PS_EPW)&&!sim_enabled(p)){ t.t=T_INTR; t.p=p; t.arg=0; out.push_back(t); }
  if(W->evtleft>0) for(int i=0;i<S->evtinit;i++){ t.t=T_EVT; t.p=i; t.arg=!K->evt[i]; out.push_back(t); } }

static std::string tr_str(const Tr&t){ char b[500]; switch(t.t){ case T_START: snprintf(b,sizeof b,"P%d calls %s%s%s",t.p,op_str(t.op).c_str(),t.done?" -> ":"",t.done?res_str(t.op,t.res).c_str():""); break; case T_STEP: snprintf(b,sizeof b,"P%d runs on%s%s",t.p,t.done?", call returns ":"",t.done?res_str(t.op,t.res).c_str():""); break; case T_CHOICE: snprintf(b,sizeof b,"P%d environment answer %d%s%s",t.p,t.arg,t.done?", call returns ":"",t.done?res_str(t.op,t.res).c_str():""); break; case T_KILL: snprintf(b,sizeof b,"P%d is killed",t.p); break; case T_EVT: snprintf(b,sizeof b,"external descriptor %d becomes %s",t.p,t.arg?"readable":"unreadable"); break; case T_INTR: snprintf(b,sizeof b,"a signal handler runs in P%d, which was asleep%s%s",t.p,t.done?", call returns ":"",t.done?res_str(t.op,t.res).c_str():""); break; case T_BORN: snprintf(b,sizeof b,"a new process starts as P%d",t.p); break; default: snprintf(b,sizeof b,"power failure"); } return b; }

static bool epi(std::string&why){ // terminal state: finish with the epilogue, no more failures or kills
  bool mic=SC.micro; SC.micro=false; SC.fine=false; int fb=K->fault_budget; K->fault_budget=0; SC.faults=false; bool ok=true;
  auto run=[&](int p,Op o,Tr&t)->bool{ memset(&t,0,sizeof t); t.t=T_START; t.p=p; t.op=o; t.epi=true; bool r=apply(t,why); g_tr.push_back(t); if(!r) return false; for(int g=0;g<2000;g++){ int e=-1; for(int q=0;q<K->nproc;q++) if(K->p[q].st!=PS_IDLE&&sim_enabled(q)){ e=q; break; } if(e<0) break; Tr u; memset(&u,0,sizeof u); u.t=T_STEP; u.p=e; u.epi=true; u.op=W->A[e].op; if(K->p[e].st==PS_CHOICE){ u.t=T_CHOICE; u.arg=0; } r=apply(u,why); g_tr.push_back(u); if(u.done&&e==p){ t.done=true; t.res=u.res; } if(!r) return false; if(g==1999){ why="livelock: processes keep waking without completing"; return false; } } return quiescent(why); };
  size_t n0=g_tr.size(); Tr t;
  for(auto&x:S->epilogue) if(ok&&K->p[x.first].st==PS_IDLE){ int h=x.second.h; if(x.second.k!=O_OPEN&&x.second.k!=O_INIT&&x.second.k<O_OPENBAD&&h>=0&&!W->A[x.first].h[h]) continue; if(x.second.k>O_BWOPEN&&!W->A[x.first].bw[h&15]) continue; if(x.second.k==O_BWOPEN&&W->A[x.first].bw[h&15]) continue; if(x.second.k==O_OPEN&&W->A[x.first].h[h]) continue; ok=run(x.first,x.second,t); }
  if(ok&&S->drain_all){
    for(int p=0;ok&&p<K->nproc;p++) if(K->p[p].st==PS_IDLE) for(int h=0;ok&&h<MAXH;h++) if(W->A[p].h[h]){ auto&c=W->spec.cs[0]; if(h>=(int)c.h[p].size()||!c.h[p][h].used) continue; auto&x=c.h[p][h]; uint64_t cap=c.obj[x.obj].n+4; bool nb=x.flags&SHR_NONBLOCK;
      if(x.flags&SHR_RDONLY) for(int k=0;k<64;k++){ if(!nb){ bool can=true; for(auto&cc:W->spec.cs){ auto&y=cc.h[p][h]; auto&r=cc.obj[y.obj]; if(r.flags&SHR_FARM? y.pos>=r.seq0+r.q.size() : r.q.empty()) can=false; } if(!can) break; } Op o=mk(O_READ,h,cap); ok=run(p,o,t); if(!ok||!t.done||t.res.rc<=0) break; }
      if(ok) ok=run(p,mk(O_STAT,h,0),t); } }
  if(ok&&S->final_inv) ok=S->final_inv(why);
  if(ok) g_tr.resize(n0); SC.micro=mic; SC.fine=mic; K->fault_budget=fb; SC.faults=S->faults>0; return ok; }

static void fail(const std::string&why){ g_stop=true; g_fail=why; }
// on the real kernel a woken process runs at once: keep traces in which it does here too
static bool eager(){ for(auto&t:g_tr) if(t.nen>1||(t.nen==1&&t.t!=T_STEP)) return false; return true; }
static void leaf(){
  R_->leaves++; if((int)g_tr.size()>R_->maxdepth) R_->maxdepth=g_tr.size();
  if(!R_->sample[0]||(R_->leaves==1000)){ std::string s; for(auto&t:g_tr){ s+=tr_str(t)+"; "; if(s.size()>1100) break; } snprintf(R_->sample,sizeof R_->sample,"%s",s.c_str()); }
  if(S->conform&&eager()){ if(g_leafno++%g_leafmod==0){ g_leaf.push_back(g_tr); if(g_leaf.size()>=1200){ std::vector<std::vector<Tr>> k; for(size_t i=0;i<g_leaf.size();i+=2) k.push_back(std::move(g_leaf[i])); g_leaf.swap(k); g_leafmod*=2; } } } }

static void dfs(int branches,uint64_t path){
  if(g_stop) return;
  std::string why;
  if(!quiescent(why)){ fail(why); return; }
  if(SC.micro&&sim_racy_changed()){ g_stop=true; g_fail="@racy"; return; }
  H128 h=full_hash(); int d=S->alpha?W->nops:0; int k=g_seen->put(h.a^(h.b*0x9E3779B97F4A7C15ull),d);
  if(k==0) R_->states++; else if(k==2){ R_->dedup++; return; }
  if(R_->states>=S->max_states){ R_->capped=1; g_stop=true; return; }
  std::vector<Tr> ts; list(ts);
  if(ts.empty()||(S->alpha&&W->nops>=S->depth&&!any_enabled())){ 
    if(!S->epilogue.empty()||S->drain_all||S->final_inv){ Full f; save(f); bool ok=epi(why); if(!ok){ fail(why); return; } restore(f); }
    leaf(); if(ts.empty()) return; }
  Full f; bool br=ts.size()>1; if(br) save(f); bool first=true;
  for(size_t i=0;i<ts.size();i++){
    uint64_t np=path; int nb=branches;
    if(br){ np=fold(path,i,17); nb++; if(nb==S->splitdepth&&g_nshards>1&&(int)((np>>11)%g_nshards)!=g_shard) continue; if(!first) restore(f); first=false; }
    Tr t=ts[i]; if(t.t==T_START){ if(S->alpha&&!W->power) W->nops++; else W->pc[t.p]++; }
    if(t.t==T_STEP||t.t==T_CHOICE||t.t==T_INTR) t.op=W->A[t.p].op;
    bool ok=apply(t,why); g_tr.push_back(t);
    if(!ok){ fail(why); return; }
    dfs(nb,np); if(g_stop) return;
    g_tr.pop_back(); } }

static bool rerun(const std::vector<Tr>&tr,std::string&why,bool verbose){
  why.clear(); if(!start_state(why)){ if(verbose) printf("  %s\n",why.c_str()); return true; }
  if(!quiescent(why)) return true;
  for(auto&t0:tr){ Tr t=t0; t.done=false; if(t.t==T_START&&!t.epi){ if(S->alpha&&!W->power) W->nops++; else W->pc[t.p]++; }
    if(t0.epi){ SC.micro=SC.fine=SC.faults=false; K->fault_budget=0; }
    bool ok=apply(t,why); if(verbose) printf("  %s\n",tr_str(t).c_str()); if(!ok) return true; if(!quiescent(why)) return true; }
  return false; }

static void write_replay(const char*path,const std::vector<Tr>&tr,const std::string&why){ FILE*f=fopen(path,"w"); if(!f) return; fprintf(f,"property %s\nscenario %s\nviolation %s\n",g_prop,S->name.c_str(),why.c_str()); for(auto&t:tr){ fprintf(f,"step %d %d %d %d ",t.t,t.p,t.arg,(int)t.epi); const uint8_t*b=(const uint8_t*)&t.op; for(size_t i=0;i<sizeof(Op);i++) fprintf(f,"%02x",b[i]); fprintf(f,"  # %s\n",tr_str(t).c_str()); } fclose(f); }

void run_job(Scenario&s,int shard,int nshards,JobResult&r,const char*outdir,const char*prop){
  S=&s; memset((void*)&r,0,sizeof r); R_=&r; g_shard=shard; g_nshards=nshards; g_outdir=outdir; g_prop=prop; g_t0=now(); snprintf(r.scen,sizeof r.scen,"%s",s.name.c_str()); memset(g_outcomes,0,sizeof g_outcomes); memset(g_started,0,sizeof g_started);
  if(!W) W=new World(); sim_boot(); uint64_t sc0=sim_stat_calls(); sim_racy_reset(); int restarts=0;
again: g_tr.clear(); g_stop=false; g_fail.clear(); g_leaf.clear(); g_leafmod=1; g_leafno=0; HSet seen; g_seen=&seen; r.states=r.leaves=r.dedup=0;
  std::string why; if(!start_state(why)) fail(why); else { sim_racy_changed(); dfs(0,0x55); }
  if(g_stop&&g_fail=="@racy"){ if(++restarts<60) goto again; fprintf(stderr,"racy bytes keep appearing\n"); g_fail.clear(); }
  if(!g_fail.empty()){ // confirm by replaying before reporting
    std::vector<Tr> tr=g_tr; std::string w1,w2; 
    auto replay=[&](std::string&w)->bool{ std::vector<Tr> keep=tr; return rerun(keep,w,false); };
    bool c1=replay(w1), c2=replay(w2);
    if(!c1||!c2){ // the epilogue runs without scheduling points; replay with the exploring run's own prefix
      g_fail+=c1?"":" [not confirmed by replay]"; }
    r.viol=(c1||c2)?1:2; snprintf(r.msg,sizeof r.msg,"%s",g_fail.c_str());
    char path[300]; snprintf(path,sizeof path,"%s/%s-%s-%d.trace",outdir,prop,s.name.c_str(),shard); write_replay(path,tr,g_fail); snprintf(r.replay,sizeof r.replay,"%s",path); }
  for(int i=0;i<4096;i++) r.outcomes+=g_outcomes[i]; r.syscalls=sim_stat_calls()-sc0; r.racy=g_racy_count; r.unmodelled=g_unmodelled; r.secs=now()-g_t0; r.faults=g_fault_kinds_seen;
  if(!s.alpha&&getenv("MC_VERBOSE")) for(int b=0;b<2;b++){ auto&pg=b?s.reborn:s.prog; for(size_t p=0;p<pg.size();p++) for(size_t i=0;i<pg[p].size();i++) if(!g_started[p&7][b][i&31]) fprintf(stderr,"%s: operation %zu of process %zu%s (%s) is never reached\n",s.name.c_str(),i,p,b?" (second life)":"",op_str(pg[p][i]).c_str()); }
  if(s.conform&&!g_leaf.empty()){ // traces for replay on the real kernel
    char path[300]; snprintf(path,sizeof path,"%s/%s-%s-%d.conf",outdir,prop,s.name.c_str(),shard); FILE*f=fopen(path,"wb"); if(f){ fprintf(f,"NPROC %d EVT %d\n",s.nproc,s.evtinit);
      auto put=[&](const Tr&t){ fprintf(f,"%d %d %d %d ",t.t,t.p,t.arg,(int)t.done); const uint8_t*b=(const uint8_t*)&t.op; for(size_t i=0;i<sizeof(Op);i++) fprintf(f,"%02x",b[i]); fputc(' ',f); b=(const uint8_t*)&t.res; if(t.done) for(size_t i=0;i<sizeof(Res);i++) fprintf(f,"%02x",b[i]); else fputc('-',f); fputc('\n',f); };
      size_t stepk=g_leaf.size()>600?2:1; for(size_t i=0;i<g_leaf.size();i+=stepk){ fprintf(f,"TRACE\n"); int nid=1; for(auto&x:s.setup){ Tr t; memset(&t,0,sizeof t); t.t=T_START; t.p=x.first; t.op=x.second; t.arg=1; int c=t.op.k==O_WRITEV?t.op.n:(t.op.k==O_WRITE||t.op.k==O_APPSET||t.op.k==O_APPGS)?1:0; if(c){ if(!t.op.id) t.op.id=nid; nid+=c; } put(t); } for(auto&t:g_leaf[i]) put(t); fprintf(f,"END\n"); r.ntraces++; } fclose(f); } }
}
static int hexv(char c){ return c<='9'?c-'0':c-'a'+10; }
int replay_file(const char*path,std::vector<Scenario>&all){
  FILE*f=fopen(path,"r"); if(!f){ perror(path); return 2; } char line[4096]; std::string scen; std::vector<Tr> tr; while(fgets(line,sizeof line,f)){ char b[300]; if(sscanf(line,"scenario %200s",b)==1) scen=b; int t,p,a,ep,n=0; if(sscanf(line,"step %d %d %d %d %n",&t,&p,&a,&ep,&n)==4){ Tr x; memset(&x,0,sizeof x); x.t=(TType)t; x.p=p; x.arg=a; x.epi=ep; uint8_t*o=(uint8_t*)&x.op; for(size_t i=0;i<sizeof(Op);i++) o[i]=hexv(line[n+2*i])*16+hexv(line[n+2*i+1]); tr.push_back(x);} } fclose(f);
  for(auto&s:all) if(s.name==scen){ static JobResult r; S=&s; R_=&r; if(!W) W=new World(); sim_boot(); std::string why; printf("replaying %zu steps of scenario %s\n",tr.size(),scen.c_str()); bool v=rerun(tr,why,true); printf("%s %s\n",v?"VIOLATED:":"no violation",why.c_str()); return v?1:0; }
  fprintf(stderr,"no scenario %s\n",scen.c_str()); return 2; }
