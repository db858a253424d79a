// Scenarios, continued: signals interrupting calls.
#include "explore.h"
#include "shr.h"
#include <cstdarg>
#include <cstdio>
#include <algorithm>
static const uint32_t RD=SHR_RDONLY, WR=SHR_WRONLY, NB=SHR_NONBLOCK, BUF=SHR_BUFFERED, MM=SHR_MAXMSGS_2;
typedef std::vector<std::pair<int,Op>> Setup; typedef std::vector<Op> Ops;
static bool isopen(int p,int h){ return W->A[p].h[h]!=nullptr; }
static bool isbw(int p,int h){ return W->A[p].bw[h]!=nullptr; }
static Scenario base(const char*fmt,...){ Scenario s; char b[60]; va_list ap; va_start(ap,fmt); vsnprintf(b,sizeof b,fmt,ap); va_end(ap); s.name=b; s.drain_all=true; return s; }
static void add(Ops&v,std::initializer_list<Op> l){ for(auto&o:l) v.push_back(o); }
static Op init(int c,int r=0){ return oinit(r,c); }
enum { WAKE=0, WAIT=1 };
// ---------------------------------------------------------------- C27 signals interrupting calls
void c27(bool th,std::vector<Scenario>&out){
  // histories: a signal may arrive whenever a call sleeps
  uint32_t rf[]={0,SHR_DROP,SHR_FARM,SHR_SYNC}; const char*nm[]={"plain","drop","farm","sync"};
  for(int i=0;i<4;i++){ Scenario s=base("sig-read-%s",nm[i]); s.nproc=3; s.intrs=2; int cfg=add_cfg(4,3,MM|rf[i]); s.setup={{0,init(cfg)},{0,oopen(0,0,WR|NB)},{1,oopen(0,0,RD)},{2,oopen(0,0,RD)}}; s.depth=6+(th?2:0); s.shards=8; s.splitdepth=2;
    s.alpha=[](int p,Ops&v){ if(p==0) add(v,{owrite(0,2),owritev(0,{1,2}),mk(O_STAT,0,0)}); else add(v,{mk(O_READ,0,4),mk(O_READV,0,4,2)}); }; out.push_back(s); }
  { Scenario s=base("sig-read-pollfd"); s.nproc=2; s.intrs=2; s.evtinit=1; s.evts=2; int cfg=add_cfg(4,3,MM); s.setup={{0,init(cfg)},{0,oopen(0,0,WR|NB)},{1,oopen(0,0,RD)},{1,mk(O_POLLFD,0,0)}}; s.depth=6+(th?2:0); s.shards=4; s.splitdepth=2;
    s.alpha=[](int p,Ops&v){ if(p==0) add(v,{owrite(0,2)}); else add(v,{mk(O_READ,0,4)}); }; out.push_back(s); }
  for(int i=0;i<2;i++){ Scenario s=base("sig-write-%s",i?"sync":"plain"); s.nproc=3; s.intrs=2; int cfg=add_cfg(4,2,MM|(i?SHR_SYNC:0)); s.setup={{0,init(cfg)},{0,oopen(0,0,WR)},{2,oopen(0,0,WR)},{1,oopen(0,0,RD|NB)}}; s.depth=6+(th?2:0); s.shards=8; s.splitdepth=2;
    s.alpha=[](int p,Ops&v){ if(p==0) add(v,{owrite(0,3),owritev(0,{1,2})}); else if(p==2) add(v,{owrite(0,2)}); else add(v,{mk(O_READ,0,4),mk(O_STAT,0,0)}); }; out.push_back(s); }
  { Scenario s=base("sig-both"); s.nproc=3; s.intrs=3; int cfg=add_cfg(3,2,MM); s.setup={{0,init(cfg)},{0,oopen(0,0,WR)},{1,oopen(0,0,RD)},{2,oopen(0,0,RD)}}; s.depth=7+(th?2:0); s.shards=8; s.splitdepth=2;
    s.alpha=[](int p,Ops&v){ if(p==0) add(v,{owrite(0,2),owritev(0,{1,2})}); else add(v,{mk(O_READ,0,4)}); }; out.push_back(s); }
  for(int nb=0;nb<2;nb++){ Scenario s=base("sig-buffered-%d",nb); s.nproc=2; s.intrs=2; int cfg=add_cfg(4,2,MM); uint32_t fl=WR|BUF|(nb?NB:0); s.setup={{0,init(cfg)},{0,oopen(0,0,fl)},{1,oopen(0,0,RD|NB)}}; s.depth=7+(th?2:0); s.shards=8; s.splitdepth=2;
    s.alpha=[](int p,Ops&v){ if(p==0) add(v,{owrite(0,2),owrite(0,3),mk(O_FLUSH,0,0),mk(O_FLUSH,0,1)}); else add(v,{mk(O_READ,0,4)}); }; s.epilogue={{0,mk(O_STAT,0,0)}}; out.push_back(s); }
  { Scenario s=base("sig-reopen"); s.nproc=2; s.intrs=2; int cfg=add_cfg(4,2,MM); s.setup={{0,init(cfg)}}; s.depth=7+(th?1:0); s.shards=8; s.splitdepth=2;
    s.alpha=[](int p,Ops&v){ if(p==0){ if(!isopen(0,0)) add(v,{oopen(0,0,WR),oopen(0,0,WR|BUF)}); else add(v,{owrite(0,3),mk(O_CLOSE,0)}); } else if(!isopen(1,0)) add(v,{oopen(0,0,RD)}); else add(v,{mk(O_READ,0,4),mk(O_CLOSE,0)}); }; s.epilogue={{1,mk(O_CLOSE,0)},{0,mk(O_CLOSE,0)},{0,oopen(0,0,WR|NB)},{0,owrite(0,1)}}; out.push_back(s); }
  { Scenario s=base("sig-bw"); s.nproc=3; s.intrs=2; s.drain_all=false; s.depth=8+(th?1:0); s.shards=8; s.splitdepth=2; s.setup={{0,mk(O_BWOPEN,0,WAKE)},{1,mk(O_BWOPEN,0,WAIT)},{2,mk(O_BWOPEN,0,WAIT)}};
    s.alpha=[](int p,Ops&v){ if(p==0) add(v,{mk(O_BWWAKE,0)}); else { if(isbw(p,0)) add(v,{mk(O_BWWAIT,0),mk(O_BWFORCE,0,p-1),mk(O_BWCLOSE,0)}); else add(v,{mk(O_BWOPEN,0,WAIT)}); } }; s.epilogue={{0,mk(O_BWWAKE,0)}}; out.push_back(s); }
  // every system call interleaved: a signal may also arrive while a call waits for the lock
  auto P=[&](const char*n,Setup su,std::vector<std::vector<Op>> pg,int k){ Scenario s=base("%s",n); s.nproc=pg.size(); s.setup=su; s.prog=pg; s.micro=true; s.intrs=k; s.shards=8; s.splitdepth=3; out.push_back(s); };
  int c=add_cfg(4,2,MM), ca=add_cfg(4,2,MM|SHR_APPDATA,6,900), cf=add_cfg(4,3,MM|SHR_FARM); int k=th?3:2;
  P("siglock-open-close",{{0,init(c)},{0,oopen(0,0,WR|NB)},{0,owrite(0,2)}},{{owrite(0,1)},{oopen(0,0,RD|NB),mk(O_READ,0,4),mk(O_CLOSE,0)}},k);
  P("siglock-writer",{{0,init(c)},{0,oopen(0,0,RD|NB)}},{{mk(O_READ,0,4),mk(O_READ,0,4)},{oopen(0,0,WR),owrite(0,2),mk(O_CLOSE,0)}},k);
  P("siglock-buffered-close",{{0,init(c)},{0,oopen(0,0,RD|NB)},{1,oopen(0,0,WR|BUF|NB)}},{{mk(O_READ,0,4)},{owrite(0,2),mk(O_CLOSE,0)}},k);
  P("siglock-buffered-flush",{{0,init(c)},{0,oopen(0,0,RD)},{1,oopen(0,0,WR|BUF)}},{{mk(O_READ,0,4)},{owrite(0,2),mk(O_FLUSH,0,1),owrite(0,1),mk(O_CLOSE,0)}},k);
  P("siglock-stat-app",{{0,init(ca)},{0,oopen(0,0,WR|NB)},{1,oopen(0,0,RD|NB)}},{{owrite(0,2),mk(O_APPSET,0,6)},{mk(O_STAT,0,5),mk(O_APPGS,0,6),mk(O_APPGET,0,0)}},k);
  P("siglock-farm",{{0,init(cf)},{0,oopen(0,0,WR|NB)},{1,oopen(0,0,RD)}},{{owritev(0,{2,2}),owrite(0,3)},{mk(O_READ,0,4),mk(O_FSTAT,0,0),mk(O_CLOSE,0)}},k);
  P("siglock-init",{{0,init(c)},{0,oopen(0,0,WR|NB)}},{{owrite(0,2),mk(O_CLOSE,0)},{init(c),oopen(0,0,RD|NB),mk(O_READ,0,4)}},k);
  P("siglock-sleep",{{0,init(c)},{0,oopen(0,0,WR)},{1,oopen(0,0,RD)}},{{owrite(0,3),owrite(0,2)},{mk(O_READ,0,4),mk(O_READ,0,4)}},k);
}
// ---------------------------------------------------------------- C28 rings locked into memory
static bool locked_inv(std::string&w){ char b[120]; for(int p=0;p<K->nproc;p++){ if(K->p[p].st==PS_DEAD) continue; const Cfg&c=W->spec.cs[0]; std::vector<int> lk,un; for(auto&x:c.h[p]) if(x.used&&x.obj>=0){ auto&v=(c.obj[x.obj].flags&SHR_MLOCK)?lk:un; if(std::find(v.begin(),v.end(),x.obj)==v.end()) v.push_back(x.obj); }
    if(c.pd[p].st) continue; int l,u,m; sim_lock_census(p,&l,&u,&m); if(m||l!=(int)lk.size()||u!=(int)un.size()){ snprintf(b,sizeof b,"process %d has %zu SHR_MLOCK and %zu other rings open, but %d rings are wholly locked into memory, %d not, %d in part",p,lk.size(),un.size(),l,u,m); w=b; return false; } } return true; }
void c28(bool th,std::vector<Scenario>&out){
  uint32_t at[]={0,SHR_DROP,SHR_FARM,SHR_SYNC,SHR_APPDATA,SHR_APPDATA|SHR_FARM|SHR_SYNC}; const char*nm[]={"plain","drop","farm","sync","appdata","all"}; struct { const char*n; uint64_t sz,mm,app; } sh[]={{"tiny",4,3,6},{"data",9000,3,6},{"slots",4,1500,6},{"app",4,3,9000},{"limit",1,1,1}};
  std::vector<uint32_t> kinds={RD,RD|NB,WR,WR|NB,WR|BUF,WR|BUF|NB};
  for(auto&z:sh) for(int i=0;i<6;i++){ if(!strcmp(z.n,"app")&&!(at[i]&SHR_APPDATA)) continue; // one ring locked, one not, in two processes
    Scenario s=base("lock-%s-%s",nm[i],z.n); s.nproc=2; s.drain_all=false; int c=add_cfg(z.sz,z.mm,MM|SHR_MLOCK|at[i],(at[i]&SHR_APPDATA)?z.app:0,900), d=add_cfg(z.sz,z.mm,MM|at[i],(at[i]&SHR_APPDATA)?z.app:0,900); s.setup={{0,oinit(0,c)},{0,oinit(1,d)}}; s.depth=4+(th?2:0); s.shards=th?8:1; s.splitdepth=2; s.inv=locked_inv; s.final_inv=locked_inv; s.conform=i==0;
    s.alpha=[kinds](int p,Ops&v){ for(int h=0;h<3;h++){ if(!isopen(p,h)){ for(int r=0;r<2;r++) if(p==0&&h==0) for(auto k:kinds) v.push_back(oopen(h,r,k)); else add(v,{oopen(h,r,p?RD:RD|NB),oopen(h,r,WR|NB)}); break; } v.push_back(mk(O_CLOSE,h)); } }; out.push_back(s); }
  { Scenario s=base("lock-replace"); s.nproc=2; s.drain_all=false; int c=add_cfg(5000,3,MM|SHR_MLOCK), d=add_cfg(5000,3,MM), e=add_cfg(9000,3,MM|SHR_MLOCK|SHR_KEEPEXIST), g=add_cfg(9000,3,MM|SHR_KEEPEXIST); s.setup={{0,oinit(0,c)}}; s.depth=6+(th?1:0); s.shards=8; s.splitdepth=2; s.inv=locked_inv; s.final_inv=locked_inv;  // the attribute of the ring that was opened counts
    s.alpha=[=](int p,Ops&v){ if(p==0) add(v,{oinit(0,c),oinit(0,d),oinit(0,e),oinit(0,g)}); for(int h=0;h<2;h++){ if(!isopen(p,h)){ add(v,{oopen(h,0,RD|NB),oopen(h,0,WR|NB)}); break; } else v.push_back(mk(O_CLOSE,h)); } }; out.push_back(s); }
  { Scenario s=base("lock-use"); s.nproc=2; int c=add_cfg(4100,2,MM|SHR_MLOCK); s.setup={{0,oinit(0,c)},{0,oopen(0,0,WR|BUF)},{1,oopen(0,0,RD)}}; s.depth=7+(th?2:0); s.shards=8; s.splitdepth=2; s.inv=locked_inv; s.final_inv=locked_inv;
    s.alpha=[](int p,Ops&v){ if(p==0) add(v,{owrite(0,4000),owrite(0,2),mk(O_FLUSH,0,0),mk(O_STAT,0,5)}); else add(v,{mk(O_READ,0,4100),mk(O_STAT,0,0)}); }; out.push_back(s); }
  for(int pages=1;pages<=7;pages++) for(int k=0;k<2;k++){ Scenario s=base("limit-%d-%s",pages,k?"big":"small"); s.nproc=2; s.cfg.lock_limit=pages*4096; s.drain_all=false; int c=add_cfg(k?9000:4,3,MM|SHR_MLOCK); s.setup={{0,oinit(0,c)}}; s.depth=6+(th?2:0); s.shards=4; s.splitdepth=2; s.inv=locked_inv; s.final_inv=locked_inv;   // what does not fit the limit is refused, without a trace
    s.alpha=[](int p,Ops&v){ for(int h=0;h<3;h++){ if(!isopen(p,h)){ if(p==0) add(v,{oopen(h,0,RD),oopen(h,0,RD|NB),oopen(h,0,WR),oopen(h,0,WR|BUF|NB)}); else add(v,{oopen(h,0,RD|NB)}); break; } v.push_back(mk(O_CLOSE,h)); if(W->spec.cs[0].h[p][h].flags&NB){ if(W->spec.cs[0].h[p][h].flags&RD) v.push_back(mk(O_READ,h,4)); else v.push_back(owrite(h,2)); } } }; s.epilogue={{0,mk(O_CLOSE,0)},{0,mk(O_CLOSE,1)},{0,mk(O_CLOSE,2)},{1,mk(O_CLOSE,0)},{1,mk(O_CLOSE,1)},{1,mk(O_CLOSE,2)}};
    s.final_inv=[](std::string&w){ char b[100]; if(!locked_inv(w)) return false; for(int p=0;p<2;p++) if(W->A[p].nopen==0&&(sim_fdcount(p)||sim_mapcount(p)||sim_alloccount(p))){ snprintf(b,sizeof b,"process %d keeps %d descriptors, %d mappings after closing everything",p,sim_fdcount(p),sim_mapcount(p)); w=b; return false; } return true; }; out.push_back(s); }
}
// ---------------------------------------------------------------- C29 calls touch only the memory they may
void c29(bool th,std::vector<Scenario>&out){
  uint32_t rf[]={0,SHR_DROP,SHR_FARM}; const char*nm[]={"plain","drop","farm"};
  for(int i=0;i<3;i++) for(int g=0;g<3;g++){ struct { int n,m; } z[]={{3,2},{5,3},{7,4}}; // caller buffers that are exactly as long as stated, of every length
    Scenario s=base("bufs-%s-%d",nm[i],z[g].n); s.nproc=2; s.drain_all=false; int n=z[g].n,m=z[g].m; int c=add_cfg(n,m,MM|rf[i]); s.setup={{0,oinit(0,c)},{0,oopen(0,0,WR|NB)},{1,oopen(0,0,RD|NB)}}; s.depth=4+(th?1:0); s.shards=8; s.splitdepth=2;
    s.alpha=[=](int p,Ops&v){ if(p==0){ for(int l=1;l<=n+1;l++) v.push_back(owrite(0,l)); for(int k=2;k<=m+1;k++) v.push_back(owritevn(0,k,1)); add(v,{owritev(0,{2,1}),owritev(0,{1,2})}); } else { for(int l=1;l<=n;l++) v.push_back(mk(O_READ,0,l)); for(int k=1;k<=m;k++) for(int l:{1,2,n-1,n}) v.push_back(mk(O_READV,0,l,k)); } }; out.push_back(s); }
  for(int i=0;i<3;i++) for(int nb=0;nb<2;nb++){ Scenario s=base("cache-%s-%d",nm[i],nb); s.nproc=2; s.drain_all=false; int c=add_cfg(5,4,MM|rf[i]); uint32_t fl=WR|BUF|(nb?NB:0); s.setup={{0,oinit(0,c)},{0,oopen(0,0,fl)},{1,oopen(0,0,RD|NB)}}; s.depth=6+(th?2:0); s.shards=8; s.splitdepth=2; // the buffer of a buffered writer, filled to the byte and to the slot
    s.alpha=[](int p,Ops&v){ if(p==0){ add(v,{owrite(0,1),owrite(0,4),owrite(0,5),owrite(0,6),owritevn(0,2,1),owritevn(0,4,1),owritevn(0,5,1),owritev(0,{2,3}),mk(O_FLUSH,0,0)}); } else add(v,{mk(O_READ,0,5),mk(O_READV,0,5,2)}); }; s.epilogue={{1,mk(O_READV,0,5,4)},{0,mk(O_CLOSE,0)},{1,mk(O_READV,0,5,4)}}; out.push_back(s); }
  { Scenario s=base("cache-tenth"); s.nproc=2; s.drain_all=false; int c=add_cfg(12000,40,MM); s.setup={{0,oinit(0,c)},{0,oopen(0,0,WR|BUF|NB)},{1,oopen(0,0,RD|NB)}}; s.depth=6+(th?1:0); s.shards=8; s.splitdepth=2; // the buffer is a tenth of a large ring
    s.alpha=[](int p,Ops&v){ if(p==0) add(v,{owrite(0,1),owrite(0,1199),owrite(0,1200),owrite(0,1201),owritevn(0,39,1),owritevn(0,40,30),mk(O_FLUSH,0,0)}); else add(v,{mk(O_READ,0,1201),mk(O_READV,0,12000,40)}); }; out.push_back(s); }
  { Scenario s=base("cache-slots"); s.nproc=2; s.drain_all=false; s.cfg.max_sys=100000; int c=add_cfg(100000,12000,MM); s.setup={{0,oinit(0,c)},{0,oopen(0,0,WR|BUF|NB)},{1,oopen(0,0,RD|NB)}}; s.depth=3; s.shards=4; s.splitdepth=1; // and holds at most 10000 messages
    s.alpha=[](int p,Ops&v){ if(p==0) add(v,{owritevn(0,9999,1),owrite(0,1),owritevn(0,10000,1),owritevn(0,10001,1)}); else add(v,{mk(O_READV,0,100000,12000)}); }; s.epilogue={{0,mk(O_FLUSH,0,0)},{1,mk(O_READV,0,100000,12000)}}; out.push_back(s); }
  for(int i=0;i<4;i++){ int al[]={1,6,7,5000}; int L=al[i]; Scenario s=base("appdata-%d",L); s.nproc=2; s.drain_all=false; int c=add_cfg(4,3,MM|SHR_APPDATA,L,900), d=add_cfg(4,3,MM); s.setup={{0,oinit(0,c)},{0,oinit(1,d)},{0,oopen(0,0,WR|NB)},{0,oopen(1,1,WR|NB)},{1,oopen(0,0,RD|NB)}}; s.depth=4+(th?1:0); s.shards=4; s.splitdepth=2;
    s.alpha=[L](int p,Ops&v){ std::vector<uint32_t> ls={(uint32_t)L,(uint32_t)L+1}; if(L>1) ls.push_back(L-1); if(L>2) ls.push_back(1); for(uint32_t l:ls) add(v,{mk(O_APPGET,0,l),mk(O_APPSET,0,l),mk(O_APPGS,0,l)}); add(v,{mk(O_APPGET,0,0),p?mk(O_READ,0,4):owrite(0,4),mk(O_STAT,0,3)}); if(p==0) add(v,{mk(O_APPGET,1,0),mk(O_APPGET,1,4),mk(O_APPSET,1,4)}); }; out.push_back(s); }
  for(int k=1;k<=9;k++) for(int f=0;f<2;f++){ Scenario s=base("wrap-%d-%s",k,f?"farm":"plain"); s.nproc=2; s.drain_all=false; int c=add_cfg(9,4,MM|(f?SHR_FARM:0)); s.setup={{0,oinit(0,c)},{0,oopen(0,0,WR|NB)},{1,oopen(0,0,RD|NB)},{0,owrite(0,k)},{1,mk(O_READ,0,9)}}; s.depth=4+(th?1:0); // writes and reads across the end of the ring, from every position
    s.alpha=[](int p,Ops&v){ if(p==0) add(v,{owrite(0,9),owrite(0,8),owrite(0,5),owritev(0,{3,4}),owritev(0,{1,1,7})}); else add(v,{mk(O_READ,0,9),mk(O_READ,0,4),mk(O_READV,0,9,4)}); }; out.push_back(s); }
  for(int wr=0;wr<2;wr++){ Scenario s=base("table-%s",wr?"writers":"readers"); s.nproc=3; s.drain_all=false; s.cfg.max_sys=200000; int c=add_cfg(3,2,MM); s.setup={{0,oinit(0,c)},{0,oopen(0,0,wr?(RD|NB):(WR|NB))}}; for(int i=0;i<62;i++) s.setup.push_back({2,oopen(i,0,wr?WR:RD)}); s.depth=5+(th?1:0); s.shards=4; bool w=wr; // the table of waiting processes, up to and beyond its end
    s.alpha=[w](int p,Ops&v){ if(p==1){ for(int h=0;h<4;h++) if(!isopen(1,h)){ v.push_back(oopen(h,0,w?WR:RD|NB)); break; } else v.push_back(mk(O_CLOSE,h)); } else if(p==2){ for(int h:{0,61}) if(isopen(2,h)) v.push_back(mk(O_CLOSE,h)); } else if(!w) add(v,{owrite(0,1)}); else add(v,{mk(O_READ,0,3)}); }; out.push_back(s); }
  for(int i=0;i<2;i++){ Scenario s=base("fault-%d",i); s.nproc=2; s.faults=1; s.drain_all=false; int c=add_cfg(4,3,MM|SHR_APPDATA,6,900); s.setup={{0,oinit(0,c)}}; s.depth=4; s.shards=8; s.splitdepth=2; bool w=i; // failing calls clean up once
    s.alpha=[=](int p,Ops&v){ if(p==0){ if(!isopen(0,0)) add(v,{oinit(0,c),oopen(0,0,w?WR|BUF:WR|NB),oopen(0,0,WR|BUF|NB)}); else add(v,{owrite(0,2),mk(O_FLUSH,0,0),mk(O_APPGET,0,0),mk(O_CLOSE,0)}); } else if(!isopen(1,0)) add(v,{oopen(0,0,RD|NB)}); else add(v,{mk(O_READ,0,4),mk(O_CLOSE,0)}); }; out.push_back(s); }
  for(int i=0;i<2;i++){ Scenario s=base("kill-%d",i); s.nproc=3; s.kills=1; s.killmask=2; s.drain_all=false; s.micro=true; int c=add_cfg(4,2,MM); s.setup={{0,oinit(0,c)},{0,oopen(0,0,WR|NB)},{2,oopen(0,0,RD|NB)}}; s.prog={{owrite(0,2),owrite(0,1)},{oopen(0,0,i?WR:RD),i?owrite(0,1):mk(O_READ,0,4),mk(O_CLOSE,0)},{mk(O_READ,0,4),mk(O_CLOSE,0)}}; s.shards=8; s.splitdepth=3; out.push_back(s); }
  { auto P=[&](const char*n,Setup su,std::vector<std::vector<Op>> pg){ Scenario s=base("%s",n); s.nproc=pg.size(); s.setup=su; s.prog=pg; s.micro=true; s.drain_all=false; s.shards=8; s.splitdepth=3; out.push_back(s); };
    int c=add_cfg(4,2,MM), d=add_cfg(4,3,MM|SHR_FARM);
    P("race-close",{{0,init(c)},{0,oopen(0,0,WR|NB)},{1,oopen(0,0,RD|NB)},{1,oopen(1,0,RD|NB)}},{{owrite(0,2),owrite(0,1)},{mk(O_CLOSE,0),mk(O_READ,1,4)}});
    P("race-buffered",{{0,init(c)},{0,oopen(0,0,WR|BUF|NB)},{1,oopen(0,0,RD|NB)}},{{owrite(0,2),owrite(0,2),mk(O_FLUSH,0,0),mk(O_CLOSE,0)},{mk(O_READ,0,4),mk(O_READV,0,4,2)}});
    P("race-farm",{{0,init(d)},{0,oopen(0,0,WR|NB)},{1,oopen(0,0,RD|NB)}},{{owritev(0,{2,2}),owrite(0,3)},{mk(O_READV,0,4,3),mk(O_READ,0,4)}}); }
}
void build3(const std::string&p,bool th,std::vector<Scenario>&out){ if(p=="C27") c27(th,out); else if(p=="C28") c28(th,out); else if(p=="C29") c29(th,out); }
