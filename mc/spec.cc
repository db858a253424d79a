// Reference model of shr: what each call may return and do, and an on-the-fly
// linearizability check (a set of possible specification states is carried along).
#include "model.h"
#include "shr.h"
#include <unordered_set>
#include <unistd.h>
#include <cstdio>
#include <algorithm>

bool g_lax_bw;
const char*ring_path(int r){ static const char*p[]={"/ring0","/ring1","/ring2","/ring3"}; return p[r&3]; }
uint64_t bytes_hash(const uint8_t*p,size_t n){ H128 h=hash_bytes(p,n,{77,n}); return h.a^h.b; }
uint64_t content_hash(uint32_t id,uint32_t len){ static std::vector<uint64_t> cache; if(cache.empty()) cache.resize(64*1024,0);
  bool sm=id<1024&&len<64; if(sm&&cache[id*64+len]) return cache[id*64+len];
  static std::vector<uint8_t> b; b.resize(len+1); for(uint32_t j=0;j<len;j++) b[j]=msg_byte(id,j); uint64_t h=bytes_hash(b.data(),len); if(!h) h=1; if(sm) cache[id*64+len]=h; return h; }

struct Hs { H128 h={3,4}; void b(const void*p,size_t n){ h=hash_bytes(p,n,h);} template<class T> void v(const T&t){ b(&t,sizeof t);} };
static void hseg(Hs&s,const std::vector<Seg>&q){ s.v(q.size()); if(!q.empty()) s.b(q.data(),q.size()*sizeof(Seg)); }
H128 Cfg::hash() const { Hs s; s.b(path,4); s.v(obj.size());
  for(auto&o:obj){ s.v(o.live); if(!o.live) continue; uint64_t a[]={o.n,o.mm,o.flags,o.applen,o.appid,(uint64_t)o.linked|(o.ready?2u:0u),o.seq0,o.start}; s.b(a,sizeof a); s.b(o.st,sizeof o.st); hseg(s,o.q);} 
  for(auto&hv:h){ s.v(hv.size()); for(auto&x:hv){ s.v(x.used); if(!x.used) continue; uint64_t a[]={(uint64_t)x.obj,x.flags,x.pos,x.md,x.evts,x.drained,x.r2w|(x.unsure?2u:0u),x.cn}; s.b(a,sizeof a); hseg(s,x.cache);} }
  for(auto&p:pd){ s.v(p.st); if(!p.st) continue; s.v(p.stage); s.v(p.sawblk); s.b(&p.op,sizeof p.op); if(p.st==2) { s.v(p.exp.rc); s.v(p.exp.digest); s.b(p.exp.st,sizeof p.exp.st); s.v(p.exp.sz);} }
  return s.h; }
void Spec::add_hash(H128&h)const{ std::vector<H128> v; for(auto&c:cs) v.push_back(c.hash()); std::sort(v.begin(),v.end(),[](const H128&a,const H128&b){return a.a<b.a||(a.a==b.a&&a.b<b.b);}); h=hash_bytes(v.data(),v.size()*sizeof(H128),h); h=hash_bytes(sawevt.data(),sawevt.size(),h); h=hash_bytes(overlapw.data(),overlapw.size(),h); h=hash_bytes(dead.data(),dead.size(),h); }
H128 Spec::hash()const{ H128 h={5,6}; add_hash(h); return h; }

void Spec::reset(int np){ cs.assign(1,Cfg()); cs[0].h.resize(np); cs[0].pd.resize(np); sawevt.assign(np,0); overlapw.assign(np,0); dead.assign(np,0); faulty=false; for(auto&p:cs[0].pd) memset(&p.op,0,sizeof p.op); }

static SHandle& H(Cfg&c,int p,int h){ auto&v=c.h[p]; if((int)v.size()<=h) v.resize(h+1); return v[h]; }
static void gc(Cfg&c){ for(size_t i=0;i<c.obj.size();i++){ auto&o=c.obj[i]; if(!o.live||o.linked) continue; bool ref=false; for(auto&hv:c.h) for(auto&x:hv) if(x.used&&x.obj==(int)i) ref=true; for(auto&pp:c.pd) if(pp.st&&(pp.op.k==O_OPEN||pp.op.k==O_INIT)&&pp.stage==10+i) ref=true; if(!ref){ o=SRing(); o.live=false; o.linked=false; } } while(!c.obj.empty()&&!c.obj.back().live) c.obj.pop_back(); }
static int newobj(Cfg&c){ for(size_t i=0;i<c.obj.size();i++) if(!c.obj[i].live){ c.obj[i]=SRing(); return i; } c.obj.push_back(SRing()); return c.obj.size()-1; }

static void append(Cfg&c,int oi,const std::vector<Seg>&m){ SRing&o=c.obj[oi]; uint64_t tot=0; for(auto&s:m) tot+=s.len;
  size_t k=0; uint64_t b=o.bytes; size_t cnt=o.q.size();
  while(b+tot>o.n || cnt+m.size()>o.mm){ b-=o.q[k].len; cnt--; k++; }
  if(k){ o.st[5]+=o.bytes-b; o.st[4]+=k; o.q.erase(o.q.begin(),o.q.begin()+k); o.seq0+=k; o.bytes=b; }
  o.q.insert(o.q.end(),m.begin(),m.end()); o.bytes+=tot; o.st[0]+=tot; o.st[2]+=m.size();
  for(auto&hv:c.h) for(auto&x:hv) if(x.used&&x.obj==oi) x.drained=false; }
static bool fits(const SRing&o,const std::vector<Seg>&m){ uint64_t tot=0; for(auto&s:m) tot+=s.len; return o.bytes+tot<=o.n && o.q.size()+m.size()<=o.mm; }
static int slots(const Cfg&c,int oi,bool rd,const std::vector<uint8_t>&dead){ int n=0; for(size_t p=0;p<c.h.size();p++) if(!dead[p]) for(auto&x:c.h[p]) if(x.used&&x.obj==oi&&(rd?(x.flags&SHR_RDONLY)!=0:x.r2w)) n++; return n; }

struct Out { Cfg c; bool done; };
static Res R(int64_t rc){ Res r; memset(&r,0,sizeof r); r.rc=rc; return r; }
static void out(std::vector<Out>&v,Cfg c,int p,Res r){ c.pd[p].st=2; c.pd[p].exp=r; v.push_back({std::move(c),true}); }

enum { RC_NEG = -1000, RC_NONPOS=-1001, RC_ANYFD=-1002, RC_CREATED=-1003 };   // symbolic results

// room: can the ring take these messages at once (drop rings always can)
static bool room(const SRing&o,const std::vector<Seg>&m){ return (o.flags&SHR_DROP)||fits(o,m); }

// One step of p's pending call in configuration c. Fills v with every permitted outcome;
// blocked is set when a correct implementation is entitled to wait here.
static void step(const Cfg&c0,int p,std::vector<Out>&v,bool&blocked,const std::vector<uint8_t>&dead){
  blocked=false; const SPend&pe=c0.pd[p]; const Op&o=pe.op; Cfg c=c0;
  switch(o.k){
  case O_INIT: { RingCfg&g=g_cfgs[o.a]; uint32_t f=g.flags; auto fin=[&](int rc){ Res e=R(rc); e.st[0]=c.path[o.r]>=0; out(v,c,p,e); };
    if(pe.stage>=10){ c.obj[pe.stage-10].ready=true; gc(c); fin(0); return; }      // g_race: creation completes
    bool bad=g.n==0||f>=SHR_OPEN_FENCE||g.kind==1;
    if(bad&&pe.stage==0){ fin(RC_NEG); if(c.path[o.r]>=0&&(f&SHR_KEEPEXIST)&&g.n&&f<SHR_OPEN_FENCE) fin(0); return; }
    if(c.path[o.r]>=0 && (f&SHR_KEEPEXIST) && pe.stage==0){ fin(0); return; }
    if(g.kind==2){ fin(RC_NEG); if(c.path[o.r]>=0){ c.obj[c.path[o.r]].linked=false; c.path[o.r]=-1; gc(c); fin(RC_NEG); } return; }
    auto make=[&]()->int{ int i=newobj(c); SRing&r=c.obj[i]; r.n=g.n; r.mm=(f&SHR_MAXMSGS_2)||!g_learn?g.mm:0; r.applen=(f&SHR_APPDATA)?g.applen:0; r.appid=g.appid; r.flags=f&(SHR_DROP|SHR_FARM|SHR_SYNC|SHR_MLOCK|SHR_APPDATA); if(f&SHR_FARM) r.flags|=SHR_DROP; c.path[o.r]=i; return i; };
    if(!g_race){ if(c.path[o.r]>=0){ c.obj[c.path[o.r]].linked=false; c.path[o.r]=-1; gc(c); } make(); fin(0); return; }
    // creations that overlap: look, remove, create, fill in are separate steps, and each may find that another creation got in between
    if(pe.stage==0){ c.pd[p].stage=c.path[o.r]>=0?3:1; v.push_back({c,false}); return; }
    if(pe.stage==3){ if(c.path[o.r]>=0){ c.obj[c.path[o.r]].linked=false; c.path[o.r]=-1; gc(c); } else fin(RC_NEG); c.pd[p].st=1; memset(&c.pd[p].exp,0,sizeof(Res)); c.pd[p].stage=1; v.push_back({c,false}); return; }
    if(c.path[o.r]>=0){ Cfg d=c; fin(RC_NEG); if(!(f&SHR_KEEPEXIST)){ d.pd[p].stage=3; v.push_back({d,false}); } return; }
    { int i=make(); c.obj[i].ready=false; c.pd[p].stage=10+i; v.push_back({c,false}); return; } }
  case O_OPENBAD: out(v,c,p,R(0)); return;           // must be refused (rc 0 = NULL)
  case O_OPEN: { uint32_t f=o.flags; bool valid=(((f&SHR_RDONLY)!=0)!=((f&SHR_WRONLY)!=0)) && !(f&(SHR_OPEN_FENCE-1)); int oi=pe.stage>=10?pe.stage-10:c.path[o.r];
    if(!valid||oi<0){ out(v,c,p,R(0)); return; }
    if(g_race&&pe.stage<10){ c.pd[p].stage=10+oi; v.push_back({c,false}); return; }
    if(!c.obj[oi].ready){ c.pd[p].stage=0; gc(c); out(v,c,p,R(0)); return; }
    SRing&r=c.obj[oi]; bool rd=f&SHR_RDONLY; bool r2w=!rd&&!(f&SHR_NONBLOCK)&&!(r.flags&SHR_DROP);
    if((rd&&slots(c,oi,true,dead)>=64)||(r2w&&slots(c,oi,false,dead)>=64)){ out(v,c,p,R(0)); return; }
    if(SC.lock_limit&&(r.flags&SHR_MLOCK)){ uint64_t n=1; for(auto&y:c.h[p]) if(y.used&&y.obj>=0&&(c.obj[y.obj].flags&SHR_MLOCK)) n++; if(n*sim_lock_size(ring_path(o.r))>SC.lock_limit){ out(v,c,p,R(0)); return; } }
    SHandle&x=H(c,p,o.h); x=SHandle(); x.used=true; x.obj=oi; x.flags=f; x.r2w=r2w; x.pos=r.seq0; out(v,c,p,R(1)); return; }
  case O_FORGET: case O_PROBE: out(v,c,p,R(0)); return;
  case O_BWOPEN: { if(o.a){ int n=0; for(size_t q=0;q<c.h.size();q++) if(!dead[q]) for(auto&y:c.h[q]) if(y.used&&y.obj==-2&&y.flags) n++; if(n>=64){ out(v,c,p,R(0)); return; } }
    SHandle&y=H(c,p,o.h); y=SHandle(); y.used=true; y.obj=-2; y.flags=o.a; out(v,c,p,R(1)); return; }
  case O_BWCLOSE: H(c,p,o.h)=SHandle(); while(!c.h[p].empty()&&!c.h[p].back().used) c.h[p].pop_back(); out(v,c,p,R(0)); return;
  // pos, md: least and greatest number of wakeups that may be pending
  case O_BWWAKE: for(auto&hv:c.h) for(auto&y:hv) if(y.used&&y.obj==-2&&y.flags){ y.pos=1; if(y.md<100) y.md++; } out(v,c,p,R(0)); return;
  case O_BWWAIT: { SHandle&y=H(c,p,o.h); if(y.md==0){ blocked=true; return; } if(y.pos==0) blocked=true; y.pos=0; y.md--; out(v,c,p,R(0)); return; }
  case O_BWREADY: { SHandle&y=H(c,p,o.h); y.pos=0; if(y.md) y.md--; out(v,c,p,R(0)); return; }
  case O_BWFORCE: { SHandle&y=H(c,p,o.h); if(o.a){ y.pos=1; y.md=std::max<uint64_t>(y.md,1); } else y.pos=y.md=0; out(v,c,p,R(0)); return; }
  case O_BWPOLLFD: H(c,p,o.h).evts|=1<<o.a; out(v,c,p,R(0)); return;
  default: break; }
  SHandle&x=H(c,p,o.h); SRing&r=c.obj[x.obj]; int oi=x.obj;
  switch(o.k){
  case O_CLOSE: { if(!x.cache.empty()&&pe.stage==0){ if(room(r,x.cache)){ auto m=x.cache; append(c,oi,m);} else if(!(x.flags&SHR_NONBLOCK)){ blocked=true; return; } }
    H(c,p,o.h)=SHandle(); while(!c.h[p].empty()&&!c.h[p].back().used) c.h[p].pop_back(); gc(c); out(v,c,p,R(0)); return; }
  case O_WRITE: case O_WRITEV: {
    std::vector<Seg> m; uint64_t tot=0; bool bad=false; int n=o.k==O_WRITE?1:o.n; for(int i=0;i<n;i++){ uint32_t l=o.k==O_WRITE?o.a:oplen(o,i); if(!l) bad=true; tot+=l; m.push_back({o.id+i,l}); }
    if(bad||n==0||tot>r.n||(uint64_t)n>r.mm){ out(v,c,p,R(RC_NEG)); return; }
    bool nb=x.flags&SHR_NONBLOCK;
    if(!(x.flags&SHR_BUFFERED)||pe.stage){ // direct (stage 1: cache already flushed by this call)
      if(room(r,m)){ append(c,oi,m); out(v,c,p,R(tot)); } else if(nb) out(v,c,p,R(0)); else blocked=true;
      if(pe.stage){ Cfg d=c0; SHandle&y=H(d,p,o.h); y.cache=m; y.cb=tot; out(v,d,p,R(tot)); }
      return; }
    bool fitscache=x.cb+tot<=r.n && x.cache.size()+n<=r.mm;
    bool mustcache=x.cn && x.cb+tot<=x.cn && x.cache.size()+n<=std::min<uint64_t>(r.mm,10000);
    if(fitscache){ Cfg d=c0; SHandle&y=H(d,p,o.h); y.cache.insert(y.cache.end(),m.begin(),m.end()); y.cb+=tot; out(v,d,p,R(tot)); }
    if(x.cache.empty()){ if(room(r,m)){ append(c,oi,m); out(v,c,p,R(tot)); } else if(!mustcache){ if(nb) out(v,c,p,R(0)); else blocked=true; } }
    else if(room(r,x.cache)){ auto q=x.cache; x.cache.clear(); x.cb=0; c.pd[p].stage=1; append(c,oi,q); v.push_back({c,false}); }
    else if(!mustcache){ if(nb) out(v,c,p,R(0)); else blocked=true; }
    return; }
  case O_FLUSH: { if(x.cache.empty()){ out(v,c,p,R(0)); return; }
    if(room(r,x.cache)){ uint64_t b=x.cb; auto q=x.cache; x.cache.clear(); x.cb=0; if((x.flags&SHR_NONBLOCK)&&o.a&&!x.r2w){ if(slots(c,oi,false,dead)<64) x.r2w=true; else { out(v,c0,p,R(RC_NEG)); return; } } append(c,oi,q); out(v,c,p,R(b)); return; }
    if((x.flags&SHR_NONBLOCK)&&!o.a) out(v,c,p,R(0));
    else { if(!x.r2w&&slots(c,oi,false,dead)>=64){ out(v,c0,p,R(RC_NEG)); return; } blocked=true; } return; }
  case O_READ: case O_READV: {
    uint64_t cap=o.a; uint64_t maxn=o.k==O_READ?1:o.b; size_t k0=0; size_t avail;
    if(r.flags&SHR_FARM){ bool missed=x.pos<r.seq0; if(cap&&maxn&&missed){ x.md+=r.seq0-x.pos; x.pos=r.seq0; } else if(missed){ k0=0; } if(x.pos>=r.seq0) k0=x.pos-r.seq0; avail=r.q.size()>k0?r.q.size()-k0:0; } else avail=r.q.size();
    if(cap==0||maxn==0){ out(v,c0,p,R(RC_NONPOS)); return; }
    if(avail==0){ if(x.flags&SHR_NONBLOCK){ x.drained=true; out(v,c,p,R(0)); } else blocked=true; return; }
    Res e=R(0); size_t k=k0; uint64_t got=0; while(k<r.q.size()&&(k-k0)<maxn&&got+r.q[k].len<=cap){ e.digest=fold(e.digest,r.q[k].len,content_hash(r.q[k].id,r.q[k].len)); got+=r.q[k].len; k++; }
    size_t n=k-k0; if(n==0){ e.rc=-2; x.drained=false; out(v,c,p,e); return; }
    e.rc=got; e.n=n; e.bytes=got; r.st[1]+=got; r.st[3]+=n; for(size_t i=0;i<n&&i<6;i++) e.lens[i]=r.q[k0+i].len;
    if(r.flags&SHR_FARM) x.pos+=n; else { r.q.erase(r.q.begin(),r.q.begin()+n); r.seq0+=n; r.bytes-=got; }
    x.drained = (avail==n);
    out(v,c,p,e); return; }
  case O_STAT: { Res e=R(0); uint64_t*s=e.st; s[0]=r.start; for(int i=0;i<6;i++) s[1+i]=r.st[i]; s[7]=r.n; s[8]=r.bytes; s[9]=r.q.size(); s[10]=r.mm; s[11]=x.cache.size(); s[12]=x.cb; s[13]=r.flags;
    if(o.a){ for(int i=0;i<6;i++) r.st[i]=0; r.start=o.a; } out(v,c,p,e); return; }
  case O_FSTAT: { Res e=R(x.md); if(o.a) x.md=0; out(v,c,p,e); return; }
  case O_APPGET: { if(!r.applen||(o.a&&o.a<r.applen)){ out(v,c,p,R(RC_NEG)); return; } Res e=R(0); e.sz=r.applen; e.digest=content_hash(r.appid,r.applen); out(v,c,p,e); return; }
  case O_APPSET: { if(!r.applen||o.a!=r.applen){ out(v,c,p,R(RC_NEG)); return; } r.appid=o.id; out(v,c,p,R(0)); return; }
  case O_APPGS: { if(!r.applen||o.a!=r.applen){ out(v,c,p,R(RC_NEG)); return; } Res e=R(0); e.sz=r.applen; e.digest=content_hash(r.appid,r.applen); r.appid=o.id; out(v,c,p,e); return; }
  case O_SELFD: { bool sel=(x.flags&SHR_RDONLY)&&(x.flags&SHR_NONBLOCK); out(v,c,p,R(sel?RC_ANYFD:-1)); return; }
  case O_POLLFD: { x.evts|=1<<o.a; out(v,c,p,R(0)); return; }
  default: out(v,c,p,R(0)); return; }
}
static bool match(const Res&e,const Res&r,const Op&o){
  if(o.k==O_INIT&&r.st[1]&&e.st[0]!=r.st[0]) return false;
  if(e.rc==RC_NEG) return r.rc<0 && r.rc!=-3; if(e.rc==RC_NONPOS) return r.rc<=0&&r.rc!=-3; if(e.rc==RC_ANYFD) return r.rc>=0;
  if(e.rc!=r.rc) return false;
  if(o.k==O_READ||o.k==O_READV) return r.rc<=0 ? r.n==0 : (e.n==r.n&&e.bytes==r.bytes&&e.digest==r.digest);
  if(o.k==O_STAT){ for(int i=0;i<14;i++) if(e.st[i]!=r.st[i]) return false; return true; }
  if(o.k==O_APPGET||o.k==O_APPGS) return e.sz==r.sz&&e.digest==r.digest;
  return true; }

void Spec::call(int p,const Op&op){
  for(auto&c:cs){ c.pd[p]=SPend(); c.pd[p].st=1; c.pd[p].op=op; memset(&c.pd[p].exp,0,sizeof(Res)); std::vector<Out> v; bool b; step(c,p,v,b,dead); if(b) c.pd[p].sawblk=true; }
  sawevt[p]=0; if(op.k>=O_WRITE||op.k==O_CLOSE) if(evt_pending(p)) sawevt[p]=1;
  // a write overlapping a read may leave a wakeup behind: do not hold the descriptor to "not readable"
  bool isw=op.k==O_WRITE||op.k==O_WRITEV||op.k==O_FLUSH||op.k==O_CLOSE; 
  overlapw[p]=isw?2:0; if(isw){ for(size_t q=0;q<overlapw.size();q++) if(q!=(size_t)p&&overlapw[q]<2) overlapw[q]=1; for(auto&c:cs) for(auto&hv:c.h) for(auto&x:hv) x.drained=false; }
  else for(size_t q=0;q<overlapw.size();q++) if(q!=(size_t)p&&overlapw[q]==2) overlapw[p]=1;
}
namespace { struct Search { Spec&s; int p; const Op&op; const Res&r; std::vector<Cfg> res; std::unordered_set<uint64_t> seen; 
  void fin(const Cfg&c0){ Cfg c=c0; c.pd[p]=SPend(); memset(&c.pd[p].op,0,sizeof(Op)); H128 h=c.hash(); if(seen.insert(h.a^0x1234567).second) res.push_back(std::move(c)); }
  void go(const Cfg&c){
    H128 h=c.hash(); if(!seen.insert(h.a).second) return;
    const SPend&pe=c.pd[p];
    if(pe.st==2){ if(match(pe.exp,r,op)) fin(c); }
    else { std::vector<Out> v; bool b=false; step(c,p,v,b,s.dead);
      for(auto&o:v) if(o.done){ if(match(o.c.pd[p].exp,r,op)) fin(o.c); } else go(o.c);
      // the closing sync of a SHR_SYNC ring may fail after the operation took effect in memory
      if(r.faults&&r.rc==-1&&(op.k==O_WRITE||op.k==O_WRITEV||op.k==O_STAT||op.k==O_APPSET||op.k==O_APPGS||op.k==O_APPGET)&&op.h<(int)c.h[p].size()&&c.h[p][op.h].used&&(c.obj[c.h[p][op.h].obj].flags&SHR_SYNC)) for(auto&o:v) if(o.done&&o.c.pd[p].exp.rc>=0) fin(o.c);
      if(r.rc==-3 && (b||pe.sawblk||op.k==O_BWWAIT) && s.sawevt[p] && (op.k==O_READ||op.k==O_READV||op.k==O_WRITE||op.k==O_WRITEV||op.k==O_FLUSH||op.k==O_BWWAIT)) fin(c);
      if(op.k==O_CLOSE && ((b||pe.sawblk)&&s.sawevt[p])){ Cfg d=c; d.pd[p].stage=1; go(d); }
      if(r.faults){ // a call that met a failure may report an error and have had no effect
        bool err = op.k==O_OPEN||op.k==O_OPENBAD ? r.rc==0 : r.rc==-1;
        if(op.k==O_FSTAT||op.k==O_SELFD) err=false;
        if(err && op.k==O_INIT){ if(!r.st[1]||(c.path[op.r]>=0)==(bool)r.st[0]) fin(c); if(!r.st[1]||!r.st[0]){ Cfg d=c; if(d.path[op.r]>=0){ d.obj[d.path[op.r]].linked=false; d.path[op.r]=-1; gc(d); fin(d); } } }
        else if(err && op.k!=O_CLOSE) fin(c);
        if(op.k==O_CLOSE && pe.stage==0){ Cfg d=c; d.pd[p].stage=1; go(d); }
      } }
    for(size_t q=0;q<c.pd.size();q++) if((int)q!=p && c.pd[q].st==1){ std::vector<Out> v; bool b; step(c,q,v,b,s.dead); for(auto&o:v) go(o.c); } } }; }

bool Spec::ret(int p,const Op&op,const Res&r,std::string&why){
  if(r.bad){ why=std::string("call misbehaved: ")+r.why; return false; }
  Search S{*this,p,op,r,{},{}}; for(auto&c:cs) S.go(c);
  if(S.res.empty()){ char b[400]; std::string want; for(auto&c:cs){ std::vector<Out> v; bool bl; if(c.pd[p].st==2) want+=" "+res_str(op,c.pd[p].exp); else { step(c,p,v,bl,dead); if(bl) want+=" (wait)"; for(auto&o:v) want+= o.done? " "+res_str(op,o.c.pd[p].exp):" ..."; } if(want.size()>200) break; }
    snprintf(b,sizeof b,"process %d: %s returned %s; the specification allows:%s",p,op_str(op).c_str(),res_str(op,r).c_str(),want.c_str()); why=b; return false; }
  cs.swap(S.res);
  if(cs.size()>4000){ why="too many specification states"; fprintf(stderr,"spec: %zu states\n",cs.size()); _exit(3); }
  if(op.k==O_OPEN&&r.rc==1) for(auto&c:cs){ SHandle&x=H(c,p,op.h); if(x.used){ x.cn=r.sz; if(g_learn&&!c.obj[x.obj].mm) c.obj[x.obj].mm=r.st[10]; } }
  // a read that met a failure may leave its descriptor in either state until the next one
  if((op.k==O_READ||op.k==O_READV)) for(auto&c:cs){ SHandle&x=H(c,p,op.h); x.unsure=r.faults>0; if(r.faults) x.drained=false; }
  if(op.k>=O_WRITE&&op.k!=O_STAT&&!r.faults&&r.rc>0&&op.k!=O_READ&&op.k!=O_READV) for(auto&c:cs) for(auto&hv:c.h) for(auto&x:hv) x.unsure=false;
  // learn nothing from an overlapping write: drop "drained"
  if(overlapw[p]==1) for(auto&c:cs){ if((int)c.h[p].size()>op.h&&op.h>=0) c.h[p][op.h].drained=false; }
  overlapw[p]=0;
  for(auto&c:cs) for(size_t q=0;q<c.pd.size();q++) if(c.pd[q].st==1&&!c.pd[q].sawblk){ std::vector<Out> v; bool b; step(c,q,v,b,dead); if(b) c.pd[q].sawblk=true; }
  return true; }

void Spec::killed(int p){
  // the call under way, if any, took effect wholly or not at all
  std::vector<Cfg> res; std::unordered_set<uint64_t> seen, fs;
  std::vector<Cfg> work=cs;
  while(!work.empty()){ Cfg c=std::move(work.back()); work.pop_back(); if(!seen.insert(c.hash().a).second) continue;
    { Cfg d=c; d.pd[p]=SPend(); memset(&d.pd[p].op,0,sizeof(Op)); d.h[p].clear(); gc(d); if(c.pd[p].st==1&&c.pd[p].op.k==O_BWWAKE) for(auto&hv:d.h) for(auto&x:hv) if(x.used&&x.obj==-2&&x.flags&&x.md<100) x.md++; for(auto&hv:d.h) for(auto&x:hv) x.drained=false; if(fs.insert(d.hash().a).second) res.push_back(std::move(d)); }
    if(c.pd[p].st==1) for(size_t q=0;q<c.pd.size();q++) if(c.pd[q].st==1){ std::vector<Out> v; bool b; step(c,q,v,b,dead); for(auto&o:v) work.push_back(std::move(o.c)); } }
  cs.swap(res); dead[p]=1; overlapw[p]=0; sawevt[p]=0; }
void Spec::respawn(int p){ dead[p]=0; }
void Spec::set_evt(int i,int ready){ if(!ready) return; for(size_t p=0;p<sawevt.size();p++) if(cs[0].pd[p].st) { int h=cs[0].pd[p].op.h; if(h>=0&&h<(int)cs[0].h[p].size()&&(cs[0].h[p][h].evts>>i&1)) sawevt[p]=1; } }
bool Spec::evt_pending(int p){ auto&c=cs[0]; if(!c.pd[p].st) return false; int h=c.pd[p].op.h; if(h<0||h>=(int)c.h[p].size()) return false; for(int i=0;i<8;i++) if((c.h[p][h].evts>>i&1)&&K->evt[i]) return true; return false; }
bool Spec::must_be_enabled(int p,std::string&why){
  for(auto&c:cs){ if(c.pd[p].st!=1){ if(c.pd[p].st==0) return false; continue; } std::vector<Out> v; bool b; step(c,p,v,b,dead); if(b||v.empty()) return false; }
  char t[256]; snprintf(t,sizeof t,"process %d sleeps in %s although it can complete, and nothing is left to wake it",p,op_str(cs[0].pd[p].op).c_str()); why=t; return true; }
bool Spec::must_be_readable(int p,int h){ for(auto&c:cs){ if(h>=(int)c.h[p].size()||!c.h[p][h].used) return false; auto&x=c.h[p][h]; if(x.obj==-2){ if(!x.flags||!x.pos) return false; continue; } if(x.unsure||!(x.flags&SHR_RDONLY)||!(x.flags&SHR_NONBLOCK)) return false; auto&r=c.obj[x.obj]; if(r.flags&SHR_FARM){ if(x.pos>=r.seq0+r.q.size()) return false; } else if(r.q.empty()) return false; } return true; }
bool Spec::must_not_be_readable(int p,int h){ for(auto&c:cs){ if(h>=(int)c.h[p].size()||!c.h[p][h].used) return false; if(c.h[p][h].obj==-2){ if(!c.h[p][h].flags||c.h[p][h].md) return false; continue; } if(!c.h[p][h].drained) return false; } return true; }

std::string op_str(const Op&o){ char b[200]; const char*n[]={"none","shr_init","shr_open","shr_close","shr_write","shr_writev","shr_read","shr_readv","shr_flush","shr_stat","shr_farm_stat","shr_appdata(get)","shr_appdata(set)","shr_appdata(get+set)","shr_get_selectable_fd","shr_ctl(POLLFD)","probe","forget","shr_open(bad)","bw_open","bw_close","bw_wake","bw_wait_ul","bw_ready_ul","bw_force","bw_ctl(POLLFD)"};
  switch(o.k){ case O_INIT: { auto&g=g_cfgs[o.a]; snprintf(b,sizeof b,"shr_init(%s, size %llu, slots %llu, flags 0x%x, appdata %llu)",ring_path(o.r),(unsigned long long)g.n,(unsigned long long)g.mm,g.flags,(unsigned long long)g.applen); break; }
    case O_OPEN: snprintf(b,sizeof b,"h%d=shr_open(%s,%s%s%s%s 0x%x)",o.h,ring_path(o.r),o.flags&SHR_RDONLY?" RDONLY":"",o.flags&SHR_WRONLY?" WRONLY":"",o.flags&SHR_NONBLOCK?" NONBLOCK":"",o.flags&SHR_BUFFERED?" BUFFERED":"",o.flags); break;
    case O_WRITE: snprintf(b,sizeof b,"shr_write(h%d, msg#%u, %u)",o.h,o.id,o.a); break;
    case O_WRITEV: { int k=snprintf(b,sizeof b,"shr_writev(h%d, msg#%u.., [",o.h,o.id); for(int i=0;i<o.n&&i<6;i++) k+=snprintf(b+k,sizeof b-k,"%s%u",i?",":"",o.lens[i]); snprintf(b+k,sizeof b-k,"])"); break; }
    case O_READV: snprintf(b,sizeof b,"shr_readv(h%d, %u bytes, %u iov)",o.h,o.a,o.b); break;
    default: snprintf(b,sizeof b,"%s(h%d, %u)",n[o.k],o.h,o.a); }
  return b; }
std::string res_str(const Op&o,const Res&r){ char b[300]; if(r.rc==RC_NEG) return "-1"; if(r.rc==RC_NONPOS) return "<=0"; if(r.rc==RC_ANYFD) return "a descriptor";
  if(o.k==O_STAT&&r.rc==0){ int k=snprintf(b,sizeof b,"0{start=%llu bw=%llu br=%llu mw=%llu mr=%llu md=%llu bd=%llu bn=%llu bu=%llu mu=%llu mm=%llu cm=%llu cb=%llu flags=0x%llx}",(unsigned long long)r.st[0],(unsigned long long)r.st[1],(unsigned long long)r.st[2],(unsigned long long)r.st[3],(unsigned long long)r.st[4],(unsigned long long)r.st[5],(unsigned long long)r.st[6],(unsigned long long)r.st[7],(unsigned long long)r.st[8],(unsigned long long)r.st[9],(unsigned long long)r.st[10],(unsigned long long)r.st[11],(unsigned long long)r.st[12],(unsigned long long)r.st[13]); (void)k; return b; }
  if((o.k==O_READ||o.k==O_READV)&&r.rc>0){ int k=snprintf(b,sizeof b,"%lld(%u msgs:",(long long)r.rc,r.n); for(unsigned i=0;i<r.n&&i<6;i++) k+=snprintf(b+k,sizeof b-k," %u",r.lens[i]); snprintf(b+k,sizeof b-k,", content %04x)",(unsigned)(r.digest&0xffff)); return b; }
  if(o.k==O_APPGET||o.k==O_APPGS){ snprintf(b,sizeof b,"%lld(size %llu, content %04x)",(long long)r.rc,(unsigned long long)r.sz,(unsigned)(r.digest&0xffff)); return b; }
  snprintf(b,sizeof b,"%lld",(long long)r.rc); return b; }
