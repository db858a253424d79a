// Scenarios, continued: block/wake library, creation, opening, closing, power loss.
#include "explore.h"
#include "shr.h"
#include <cstdarg>
#include <cstdio>
#include <algorithm>
static const uint32_t RD=SHR_RDONLY, WR=SHR_WRONLY, NB=SHR_NONBLOCK, BUF=SHR_BUFFERED, MM=SHR_MAXMSGS_2;
typedef std::vector<std::pair<int,Op>> Setup; typedef std::vector<Op> Ops;
static bool isopen(int p,int h){ return W->A[p].h[h]!=nullptr; }
static bool isbw(int p,int h){ return W->A[p].bw[h]!=nullptr; }
static Scenario base(const char*fmt,...){ Scenario s; char b[60]; va_list ap; va_start(ap,fmt); vsnprintf(b,sizeof b,fmt,ap); va_end(ap); s.name=b; s.drain_all=true; return s; }
static void add(Ops&v,std::initializer_list<Op> l){ for(auto&o:l) v.push_back(o); }
static Op obad(int r,uint32_t flags,int kind){ Op o=mk(O_OPENBAD,-1,kind); o.r=r; o.flags=flags; return o; }
static Op init(int c,int r=0){ return oinit(r,c); }
enum { WAKE=0, WAIT=1 };
// ---------------------------------------------------------------- C13 block/wake library
void c13(bool th,std::vector<Scenario>&out){
  auto S=[&](const char*n,int np,int depth){ Scenario s=base("%s",n); s.nproc=np; s.depth=depth; s.shards=8; s.splitdepth=2; s.drain_all=false; s.conform=true; return s; };
  auto waiter=[](int p,int h,Ops&v,bool close,bool ready=true){ if(!isbw(p,h)) add(v,{mk(O_BWOPEN,h,WAIT)}); else { add(v,{mk(O_BWWAIT,h),mk(O_BWFORCE,h,0),mk(O_BWFORCE,h,1)}); if(ready) v.push_back(mk(O_BWREADY,h)); if(close) v.push_back(mk(O_BWCLOSE,h)); } };
  auto waker=[](int p,int h,Ops&v,bool close){ if(!isbw(p,h)) add(v,{mk(O_BWOPEN,h,WAKE)}); else { v.push_back(mk(O_BWWAKE,h)); if(close) v.push_back(mk(O_BWCLOSE,h)); } };
  { Scenario s=S("bw-open-close",3,8+(th?1:0)); s.alpha=[=](int p,Ops&v){ if(p==0) waker(0,0,v,true); else { if(!isbw(p,0)) add(v,{mk(O_BWOPEN,0,WAIT)}); else add(v,{mk(O_BWCLOSE,0),mk(O_BWWAIT,0)}); } }; s.epilogue={{0,mk(O_BWOPEN,0,WAKE)},{0,mk(O_BWWAKE,0)}}; out.push_back(s); }
  { Scenario s=S("bw-two-waiters",3,7+(th?1:0)); s.alpha=[=](int p,Ops&v){ if(p==0) waker(0,0,v,false); else waiter(p,0,v,p==1); }; s.epilogue={{0,mk(O_BWOPEN,0,WAKE)},{0,mk(O_BWWAKE,0)}}; out.push_back(s); }
  { Scenario s=S("bw-same-process",2,8); s.alpha=[=](int p,Ops&v){ if(p==0){ waker(0,0,v,true); waker(0,1,v,false); } else { for(int h=0;h<2;h++) if(!isbw(1,h)) add(v,{mk(O_BWOPEN,h,WAIT)}); else add(v,{mk(O_BWCLOSE,h),mk(O_BWFORCE,h,0),mk(O_BWREADY,h)}); } }; s.epilogue={{0,mk(O_BWOPEN,0,WAKE)},{0,mk(O_BWWAKE,0)},{0,mk(O_BWWAKE,1)}}; out.push_back(s); }
  { Scenario s=S("bw-slot-reuse",4,8+(th?1:0)); s.setup={{0,mk(O_BWOPEN,0,WAKE)},{1,mk(O_BWOPEN,0,WAIT)},{0,mk(O_BWWAKE,0)}}; s.alpha=[=](int p,Ops&v){ if(p==0){ add(v,{mk(O_BWWAKE,0)}); if(isbw(0,1)) add(v,{mk(O_BWWAKE,1)}); else add(v,{mk(O_BWOPEN,1,WAKE)}); } else if(isbw(p,0)) add(v,{mk(O_BWCLOSE,0)}); else add(v,{mk(O_BWOPEN,0,WAIT)}); }; s.epilogue={{0,mk(O_BWWAKE,0)}}; out.push_back(s);
    s.name="bw-names-reused"; s.cfg.reuse_names=true; s.conform=false; out.push_back(s); }
  for(int un=0;un<2;un++){ Scenario s=S(un?"bw-kill":"bw-kill-b",4,7+(th?1:0)); s.kills=1; s.killmask=6; s.cfg.unnamed_first=un; s.conform=un; s.alpha=[=](int p,Ops&v){ if(p==0) waker(0,0,v,false); else if(p<3){ if(!isbw(p,0)) add(v,{mk(O_BWOPEN,0,WAIT)}); else add(v,{mk(O_BWWAIT,0),mk(O_BWFORCE,0,1)}); } else waker(3,0,v,false); }; s.epilogue={{0,mk(O_BWOPEN,0,WAKE)},{0,mk(O_BWWAKE,0)},{3,mk(O_BWOPEN,1,WAIT)},{0,mk(O_BWWAKE,0)}}; out.push_back(s); }
  { Scenario s=S("bw-kill-reborn",3,7); s.kills=1; s.killmask=2; s.conform=false; s.reborn={{},{mk(O_BWOPEN,0,WAIT)},{}}; s.alpha=[=](int p,Ops&v){ if(p==0) waker(0,0,v,false); else if(!isbw(p,0)) add(v,{mk(O_BWOPEN,0,WAIT)}); else add(v,{mk(O_BWWAIT,0)}); }; s.epilogue={{0,mk(O_BWOPEN,0,WAKE)},{0,mk(O_BWWAKE,0)}}; out.push_back(s); s.name="bw-kill-reborn-b"; s.reborn={{},{mk(O_BWOPEN,0,WAKE)},{}}; out.push_back(s); }
  for(int q=1;q<=3;q++){ Scenario s=S("bw-queue",2,11+(th?2:0)); char b[30]; snprintf(b,30,"bw-queue%d",q); s.name=b; s.cfg.qlen=q; s.conform=false; s.shards=2; s.setup={{0,mk(O_BWOPEN,0,WAKE)},{1,mk(O_BWOPEN,0,WAIT)}}; s.alpha=[=](int p,Ops&v){ if(p==0) add(v,{mk(O_BWWAKE,0)}); else add(v,{mk(O_BWREADY,0),mk(O_BWWAIT,0),mk(O_BWFORCE,0,0),mk(O_BWFORCE,0,1)}); }; s.epilogue={{1,mk(O_BWFORCE,0,0)}}; out.push_back(s); }
  { Scenario s=S("bw-many-wakes",2,6); s.cfg.qlen=15; s.conform=false; s.shards=1; s.setup={{0,mk(O_BWOPEN,0,WAKE)},{1,mk(O_BWOPEN,0,WAIT)},{1,mk(O_BWOPEN,1,WAIT)}}; for(int i=0;i<13;i++) s.setup.push_back({0,mk(O_BWWAKE,0)}); s.alpha=[=](int p,Ops&v){ if(p==0) add(v,{mk(O_BWWAKE,0)}); else add(v,{mk(O_BWREADY,0),mk(O_BWWAIT,0),mk(O_BWFORCE,0,0),mk(O_BWFORCE,0,1),mk(O_BWFORCE,1,0)}); }; s.epilogue={{1,mk(O_BWFORCE,0,0)}}; out.push_back(s); }
  { int q=0; int fl[]={20,40,130,300,511,1023,1024,1025,2049,2600}; for(int nw:fl){ Scenario s=S("",2,4); char b[30]; snprintf(b,30,"bw-flood-%d",nw); s.name=b; s.cfg.qlen=q++%2?nw+1:4000; s.cfg.max_sys=2000000; s.conform=false; s.shards=1; s.setup={{0,mk(O_BWOPEN,0,WAKE)},{1,mk(O_BWOPEN,0,WAIT)}}; for(int i=0;i<nw;i++) s.setup.push_back({0,mk(O_BWWAKE,0)}); s.alpha=[=](int p,Ops&v){ if(p==0) add(v,{mk(O_BWWAKE,0)}); else add(v,{mk(O_BWREADY,0),mk(O_BWWAIT,0),mk(O_BWFORCE,0,0),mk(O_BWFORCE,0,1)}); }; s.epilogue={{1,mk(O_BWFORCE,0,0)}}; out.push_back(s); } } // queues of thousands (a system with a larger max_dgram_qlen)
  for(int pad: {50,90,135,180,300,th?900:300}){ if(pad==300&&!out.empty()&&out.back().name=="bw-busy-host-300") continue; Scenario s=S("",4,6+(th?1:0)); char b[30]; snprintf(b,30,"bw-busy-host-%d",pad); s.name=b; s.cfg.unixpad=pad; s.kills=1; s.killmask=2; s.conform=false; s.shards=4; s.alpha=[=](int p,Ops&v){ if(p==0) waker(0,0,v,true); else if(p<3){ if(!isbw(p,0)) add(v,{mk(O_BWOPEN,0,WAIT)}); else add(v,{mk(O_BWCLOSE,0)}); } else waker(3,0,v,false); }; s.epilogue={{0,mk(O_BWOPEN,0,WAKE)},{0,mk(O_BWWAKE,0)},{3,mk(O_BWOPEN,1,WAIT)},{0,mk(O_BWWAKE,0)}}; out.push_back(s); } // /proc/net/unix lists the sockets of many other programs
  { Scenario s=S("bw-poll",3,6+(th?1:0)); s.evtinit=2; s.evts=3; s.cfg.epchoice=true; s.setup={{0,mk(O_BWOPEN,0,WAKE)},{1,mk(O_BWOPEN,0,WAIT)},{2,mk(O_BWOPEN,0,WAIT)},{1,mk(O_BWPOLLFD,0,0)},{1,mk(O_BWPOLLFD,0,1)}}; s.conform=false; s.alpha=[=](int p,Ops&v){ if(p==0) add(v,{mk(O_BWWAKE,0)}); else add(v,{mk(O_BWWAIT,0),mk(O_BWFORCE,0,0),mk(O_BWFORCE,0,1)}); }; out.push_back(s); }
  { Scenario s=S("bw-64",6,4+(th?1:0)); s.conform=false; s.cfg.max_sys=2000000; s.kills=1; s.killmask=2; for(int i=0;i<62;i++) s.setup.push_back({1+i/16,mk(O_BWOPEN,i%16,WAIT)}); s.setup.push_back({0,mk(O_BWOPEN,0,WAKE)}); s.alpha=[=](int p,Ops&v){ if(p==0) add(v,{mk(O_BWWAKE,0)}); else if(p==1){ if(isbw(1,3)) add(v,{mk(O_BWCLOSE,3),mk(O_BWREADY,3)}); } else if(p==5){ for(int h=0;h<4;h++) if(!isbw(5,h)){ add(v,{mk(O_BWOPEN,h,WAIT)}); break; } if(isbw(5,0)) add(v,{mk(O_BWWAIT,0),mk(O_BWCLOSE,0)}); } else if(p==4){ if(isbw(4,13)) add(v,{mk(O_BWCLOSE,13)}); } }; s.epilogue={{0,mk(O_BWWAKE,0)}}; out.push_back(s); }
  auto MI=[&](const char*n,std::vector<Ops> pr,Setup pre,int kills=0,uint32_t km=0,Setup epi=Setup()){ Scenario s=base("%s",n); s.nproc=pr.size(); s.micro=true; s.drain_all=false; s.prog=pr; s.setup=pre; s.kills=kills; s.killmask=km; s.epilogue=epi; out.push_back(s); };
  Op wk=mk(O_BWWAKE,0),wt=mk(O_BWWAIT,0),ow=mk(O_BWOPEN,0,WAKE),oi=mk(O_BWOPEN,0,WAIT),cl=mk(O_BWCLOSE,0),f0=mk(O_BWFORCE,0,0),f1=mk(O_BWFORCE,0,1);
  MI("mi-wake",{{wk,wk},{wt,wt},{wt}},{{0,ow},{1,oi},{2,oi}});
  MI("mi-two-wakers",{{wk},{wk},{wt,wt}},{{0,ow},{1,ow},{2,oi}});
  MI("mi-open",{{ow,wk},{oi,wt},{oi,cl}},{},0,0,{{0,wk}});
  MI("mi-close",{{wk,wk},{cl,oi},{wt}},{{0,ow},{1,oi},{2,oi}},0,0,{{0,wk}});
  MI("mi-force",{{wk,wk},{f0,f1,wt},{wt}},{{0,ow},{1,oi},{2,oi}});
  MI("mi-kill-waiter",{{wk,wk},{wt},{wt}},{{0,ow},{1,oi},{2,oi}},1,2,{{0,wk}});
  MI("mi-kill-waker",{{wk,wk},{wt},{wk}},{{0,ow},{1,oi},{2,ow}},1,1,{{2,wk}});
  MI("mi-kill-open",{{wk,wk},{oi,cl},{wt}},{{0,ow},{2,oi}},1,2,{{0,wk}});
}
// ---------------------------------------------------------------- C16 creation
static int mkcfg(uint64_t n,uint64_t mm,uint32_t fl,uint64_t al,int kind=0){ int c=add_cfg(n,mm,fl,al,900); g_cfgs[c].kind=kind; return c; }
static void limits(int p,int h,Ops&v){ auto&c=W->spec.cs[0]; if(h>=(int)c.h[p].size()||!c.h[p][h].used) return; auto&r=c.obj[c.h[p][h].obj]; uint32_t n=r.n,m=r.mm; add(v,{owrite(h,n),owrite(h,n+1)}); if(m&&m<=120){ if(n>=m) add(v,{owritevn(h,m,1)}); add(v,{owritevn(h,m+1,1)}); } if(n>1&&m>1) add(v,{owritev(h,{1,n-1})}); }
void c16(bool th,std::vector<Scenario>&out){
  std::vector<int> all;
  uint64_t ns[]={1,2,3,4,5,6,7,8,9,15,16,17,64}; uint64_t ms[]={1,2,3,0};
  std::vector<int> g1; for(uint64_t n:ns) for(uint64_t m:ms) for(uint32_t f: {0u,(uint32_t)SHR_DROP,(uint32_t)(SHR_APPDATA|SHR_SYNC)}) g1.push_back(mkcfg(n,m,f|(m?MM:0),9));
  std::vector<int> g2; for(int k=0;k<64;k++){ uint32_t f=0; uint32_t b[]={SHR_DROP,SHR_FARM,SHR_SYNC,SHR_MLOCK,SHR_APPDATA,SHR_KEEPEXIST}; for(int i=0;i<6;i++) if(k>>i&1) f|=b[i]; for(uint64_t m: {(uint64_t)2,(uint64_t)0}) for(uint64_t al: {1,8,9}) if((f&SHR_APPDATA)||al==1) g2.push_back(mkcfg(5,m,f|(m||!(k&1)?MM:0),al)); }
  std::vector<int> g3; for(uint64_t m: {1,7,50,99,120}) for(uint64_t n: {(uint64_t)100,m>1?m-1:m,m,m+1}) g3.push_back(mkcfg(n,m,MM,0)); for(uint64_t al: {100,4096,5000}) g3.push_back(mkcfg(3,2,MM|SHR_APPDATA,al));
  int gi=0; for(auto*g: {&g1,&g2,&g3}){ Scenario s=base("create-%d",gi++); s.nproc=2; s.learn=true; s.depth=6+(th?1:0); s.shards=16; s.splitdepth=1; s.conform=true; std::vector<int> cf=*g; int dd=s.depth;
    s.alpha=[cf,dd](int p,Ops&v){ if(W->nops==0){ if(p==0) for(int c:cf) v.push_back(init(c)); return; } if(p==0){ if(!isopen(0,0)){ add(v,{oopen(0,0,WR|NB)}); return; } limits(0,0,v); if(W->nops==dd-1) add(v,{mk(O_STAT,0)}); } else { if(!isopen(0,0)) return; if(!isopen(1,0)){ add(v,{oopen(0,0,RD|NB)}); return; } uint32_t n=W->spec.cs[0].obj[0].n; add(v,{mk(O_READV,0,n,200),mk(O_READ,0,n)}); if(W->nops>=dd-2) add(v,{mk(O_APPGET,0,0)}); } };
    s.epilogue={{1,oopen(0,0,RD|NB)},{1,mk(O_APPGET,0,0)},{1,mk(O_STAT,0)}}; out.push_back(s); }
  // invalid and unrepresentable configurations, on their own and over an existing ring
  std::vector<int> bad; uint64_t X=1; for(uint64_t n: {X<<63,(X<<63)-1,~(X*0),~(X*0)-7,~(X*0)-1600,(X<<63)-1600}){ bad.push_back(mkcfg(n,4,MM,0,1)); bad.push_back(mkcfg(n,0,0,0,1)); bad.push_back(mkcfg(n,4,MM|SHR_APPDATA,5,1)); }
  for(uint64_t m: {X<<60,(X<<60)+1,(X<<60)-1,~(X*0),(X<<59),(X<<63)+1}){ bad.push_back(mkcfg(4,m,MM,0,1)); bad.push_back(mkcfg(64,m,MM|SHR_APPDATA,5,1)); }
  for(uint64_t a: {~(X*0),~(X*0)-1700,(X<<63),~(X*0)-7}) bad.push_back(mkcfg(4,3,MM|SHR_APPDATA,a,1));
  bad.push_back(mkcfg(0,3,MM,0)); bad.push_back(mkcfg(0,0,0,0)); for(uint32_t f: {SHR_RDONLY,SHR_WRONLY,SHR_NONBLOCK,SHR_BUFFERED}) bad.push_back(mkcfg(4,3,MM|f,0));
  std::vector<int> huge; for(uint64_t n: {X<<40,X<<33,X<<24}) huge.push_back(mkcfg(n,3,MM,0,2)); huge.push_back(mkcfg(4,X<<36,MM,0,2)); huge.push_back(mkcfg(4,3,MM|SHR_APPDATA,X<<40,2));
  int ok=mkcfg(5,3,MM,0), ok2=mkcfg(7,2,MM|SHR_DROP|SHR_APPDATA,6), keep=mkcfg(9,9,MM|SHR_KEEPEXIST,0);
  for(int k=0;k<2;k++){ std::vector<int> cf=k?huge:bad; Scenario s=base(k?"too-large":"invalid"); s.nproc=2; s.depth=4+(th?1:0); s.shards=8; s.splitdepth=2; s.conform=!k;
    s.alpha=[=](int p,Ops&v){ if(p==0){ if(W->nops<3) for(int c:cf) v.push_back(init(c)); add(v,{init(ok)}); if(W->spec.cs[0].path[0]>=0||!isopen(0,0)) if(!isopen(0,0)) add(v,{oopen(0,0,WR|NB)}); if(isopen(0,0)) add(v,{owrite(0,2)}); } else { if(!isopen(1,0)) add(v,{oopen(0,0,RD|NB)}); else add(v,{mk(O_READ,0,9)}); } };
    s.epilogue={{1,oopen(1,0,RD|NB)},{0,init(ok)},{0,oopen(1,0,WR|NB)},{0,owrite(1,5)},{1,oopen(2,0,RD|NB)}}; out.push_back(s); }
  // replacement and keep-exist, with the old ring in use
  { Scenario s=base("replace"); s.nproc=2; s.depth=7; s.shards=16; s.splitdepth=3; s.conform=true; s.setup={{0,init(ok)},{0,oopen(0,0,WR|NB)},{1,oopen(0,0,RD|NB)},{0,owrite(0,2)}};
    s.alpha=[=](int p,Ops&v){ if(p==0){ add(v,{init(ok2),init(keep),owrite(0,2)}); if(isopen(0,1)) add(v,{owrite(1,3)}); else add(v,{oopen(1,0,WR|NB)}); } else { add(v,{mk(O_READ,0,9)}); if(isopen(1,1)) add(v,{mk(O_READ,1,9),mk(O_APPGET,1,0),mk(O_CLOSE,1)}); else add(v,{oopen(1,0,RD|NB)}); } }; out.push_back(s); }
  // keep-exist leaves every part of the existing ring alone, whatever else is asked for
  for(int old=0;old<2;old++){ std::vector<int> kc; for(uint32_t f: {0u,(uint32_t)SHR_DROP,(uint32_t)SHR_FARM,(uint32_t)(SHR_SYNC|SHR_MLOCK)}) for(uint64_t n: {2,7,40}) for(uint64_t m: {2,5}){ kc.push_back(add_cfg(n,m,MM|SHR_KEEPEXIST|f,0,0)); for(uint64_t al: {1,6,9}) kc.push_back(add_cfg(n,m,MM|SHR_KEEPEXIST|SHR_APPDATA|f,al,901)); } kc.push_back(add_cfg(7,0,SHR_KEEPEXIST,0,0));
    Scenario s=base("keep-%d",old); s.nproc=2; s.depth=5+(th?1:0); s.shards=8; s.splitdepth=2; s.conform=true; s.setup={{0,init(old?mkcfg(7,2,MM|SHR_DROP|SHR_APPDATA,6):mkcfg(7,2,MM,0))},{0,oopen(0,0,WR|NB)},{0,owrite(0,3)}};
    s.alpha=[=](int p,Ops&v){ if(p==0){ if(W->nops<3) for(int c:kc) v.push_back(init(c)); add(v,{owrite(0,2)}); } else if(!isopen(1,0)) add(v,{oopen(0,0,RD|NB)}); else add(v,{mk(O_READ,0,9),mk(O_APPGET,0,0)}); };
    s.epilogue={{1,oopen(1,0,RD|NB)},{1,mk(O_APPGET,1,0)},{1,mk(O_STAT,1)},{0,owrite(0,1)},{0,owrite(0,7)}}; out.push_back(s); }
  { Scenario s=base("replace-blocked"); s.nproc=4; s.depth=6+(th?1:0); s.shards=8; s.splitdepth=2; s.conform=true; s.setup={{0,init(mkcfg(3,2,MM,0))},{0,oopen(0,0,WR)},{1,oopen(0,0,RD)},{3,oopen(0,0,WR|BUF)}};
    s.alpha=[=](int p,Ops&v){ if(p==0) add(v,{owrite(0,2)}); else if(p==1) add(v,{mk(O_READ,0,9)}); else if(p==2){ add(v,{init(ok2),init(keep)}); if(!isopen(2,0)) add(v,{oopen(0,0,RD|NB)}); else add(v,{mk(O_READ,0,9)}); } else { add(v,{owrite(0,1),mk(O_FLUSH,0,0)}); } }; out.push_back(s); }
  { Scenario s=base("two-paths"); s.nproc=2; s.depth=6+(th?1:0); s.shards=8; s.splitdepth=2; s.conform=true; s.setup={{0,init(ok)}};
    s.alpha=[=](int p,Ops&v){ if(p==0){ add(v,{oinit(1,ok2),oinit(0,keep),oinit(1,keep)}); for(int h=0;h<2;h++) if(isopen(0,h)) add(v,{owrite(h,2)}); else add(v,{oopen(h,h,WR|NB)}); } else for(int h=0;h<2;h++) if(isopen(1,h)) add(v,{mk(O_READ,h,9)}); else add(v,{oopen(h,h,RD|NB)}); }; out.push_back(s); }
}
// ---------------------------------------------------------------- C17 opening
void c17(bool th,std::vector<Scenario>&out){
  struct { const char*n; int sz,mm; uint32_t f; int al; } cf[]={{"plain",5,3,0,0},{"drop",4,2,SHR_DROP,0},{"farm",7,4,SHR_FARM,0},{"app",3,3,SHR_APPDATA,5},{"sync",8,2,SHR_SYNC|SHR_MLOCK|SHR_APPDATA,1}};
  uint32_t modes[]={RD|NB,RD,WR,WR|NB,WR|BUF|NB,WR|BUF};
  for(auto&c:cf){ int cfg=add_cfg(c.sz,c.mm,MM|c.f,c.al,900);
    { Scenario s=base("damaged-%s",c.n); s.nproc=3; s.drain_all=false; s.cfg.max_sys=4000000; s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,WR|NB)},{1,oopen(0,0,RD|NB)}}; s.depth=3; s.shards=8; s.splitdepth=2; s.conform=!strcmp(c.n,"plain"); uint32_t n=c.sz; std::vector<uint32_t> mo(modes,modes+(th?6:4));
      s.alpha=[n,mo](int p,Ops&v){ if(p==0&&W->nops<2) add(v,{owrite(0,2),owrite(0,n),owritev(0,{1,1})}); if(p==1&&W->nops<2) add(v,{mk(O_READ,0,n)}); if(p==2&&W->nops==2) for(uint32_t f:mo) for(int k=0;k<=4;k++) if(k<2||f==mo[0]||(k==3)) v.push_back(obad(0,f,k)); };
      s.epilogue={{2,oopen(5,0,RD|NB)},{2,mk(O_READV,5,99,99)},{2,mk(O_STAT,5)}}; out.push_back(s); }
    { Scenario s=base("history-%s",c.n); s.nproc=3; s.setup={{0,oinit(0,cfg)}}; s.depth=7+(th?1:0); s.shards=8; s.splitdepth=2; s.conform=true; uint32_t n=c.sz;
      s.alpha=[n](int p,Ops&v){ if(p==0){ if(!isopen(0,0)) add(v,{oopen(0,0,WR|NB)}); else { add(v,{owrite(0,2),owrite(0,n),mk(O_CLOSE,0)}); if(n>4) add(v,{owritev(0,{1,2})}); } } else if(p==1){ if(!isopen(1,0)) add(v,{oopen(0,0,RD|NB)}); else add(v,{mk(O_READ,0,n),mk(O_CLOSE,0)}); } else if(W->nops>=5&&!isopen(2,0)) add(v,{oopen(0,0,RD),oopen(0,0,WR),oopen(0,0,WR|BUF),oopen(0,0,RD|NB)}); };
      s.epilogue={{2,oopen(0,0,RD|NB)},{0,oopen(0,0,WR|NB)}}; out.push_back(s); } }
  { Scenario s=base("invalid-flags"); s.nproc=2; s.drain_all=false; s.cfg.max_sys=4000000; int cfg=add_cfg(5,3,MM); s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,WR|NB)},{0,owrite(0,2)}}; s.depth=1; s.conform=true; s.alpha=[](int p,Ops&v){ if(p==1) add(v,{obad(0,0,4),obad(2,RD,3),obad(2,WR|NB,3)}); }; s.epilogue={{1,oopen(5,0,RD|NB)},{1,mk(O_READ,5,5)}}; out.push_back(s); }
  { Scenario s=base("wrap-drop"); s.nproc=2; int cfg=add_cfg(4,3,MM|SHR_DROP); s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,WR)}}; s.depth=9+(th?1:0); s.shards=8; s.splitdepth=3; s.conform=true; s.alpha=[](int p,Ops&v){ if(p==0) add(v,{owrite(0,1),owrite(0,2),owrite(0,3),owrite(0,4)}); else { if(isopen(1,0)) add(v,{mk(O_READ,0,4),mk(O_CLOSE,0)}); else add(v,{oopen(0,0,RD|NB)}); } }; s.epilogue={{1,oopen(0,0,RD|NB)}}; out.push_back(s); }
  { Scenario s=base("reopen-100"); s.nproc=3; int cfg=add_cfg(5,3,MM); s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,WR|NB)},{0,owrite(0,2)}}; uint32_t k=0; for(int i=0;i<102;i++){ int p=1+i%2; s.setup.push_back({p,oopen(0,0,modes[k++%6])}); s.setup.push_back({p,mk(O_CLOSE,0)}); } s.depth=3; s.conform=true; s.alpha=[](int p,Ops&v){ if(p==0) add(v,{owrite(0,1)}); else if(!isopen(p,0)) add(v,{oopen(0,0,RD|NB),oopen(0,0,WR)}); }; s.epilogue={{1,oopen(1,0,RD|NB)}}; out.push_back(s); }
}
// ---------------------------------------------------------------- C21 creating and opening concurrently
void c21(bool th,std::vector<Scenario>&out){
  int A=mkcfg(3,2,MM|SHR_APPDATA,5), B=mkcfg(6,3,MM|SHR_DROP,0), KA=mkcfg(4,2,MM|SHR_KEEPEXIST,0), KB=mkcfg(7,3,MM|SHR_KEEPEXIST|SHR_APPDATA,9);
  auto S=[&](const char*n,std::vector<Ops> pr,Setup pre=Setup(),int shards=1){ Scenario s=base("%s",n); s.nproc=pr.size(); s.micro=true; s.init_race=true; s.leakcheck=true; s.prog=pr; s.setup=pre; s.shards=shards; s.splitdepth=5;
    s.epilogue={{0,oopen(5,0,WR|NB)},{0,mk(O_STAT,5)},{0,owrite(5,2)},{0,owrite(5,1)},{1,oopen(5,0,RD|NB)},{1,mk(O_APPGET,5,0)},{1,mk(O_STAT,5)}};
    s.final_inv=[](std::string&w){ if(sim_file_find(ring_path(0))<0){ w="no ring at the path after the creations completed"; return false; } if(!W->A[0].h[5]||!W->A[1].h[5]){ w="the ring left at the path cannot be opened"; return false; } return true; };
    out.push_back(s); };
  Op ar=oopen(0,0,RD|NB), aw=oopen(0,0,WR|NB), st=mk(O_STAT,0), r=mk(O_READ,0,9), w1=owrite(0,1), w2=owrite(0,2), ag=mk(O_APPGET,0,0);
  S("init-open",{{init(A)},{ar,st,ag},{aw,w2}});
  S("init-open-b",{{init(B),aw,w2},{ar,r,st}});
  S("two-inits",{{init(A),aw,w2},{init(B),ar,r}});
  S("two-inits-opener",{{init(A)},{init(B)},{ar,st,ag}});
  S("init-over-existing",{{init(B)},{ar,st,r},{aw,w2}},{{0,init(A)}});
  S("two-inits-over-existing",{{init(A),aw,w1},{init(B),ar,r}},{{0,init(A)}});
  S("keepexist-both",{{init(KA),aw,w2},{init(KB),ar,st,ag}});
  S("keepexist-opener",{{init(KA)},{init(KB)},{ar,st,r}});
  S("keepexist-vs-replace",{{init(KA),aw,w2},{init(B)},{ar,st}},{{0,init(A)}});
  S("keepexist-vs-fresh",{{init(KB),aw,w2},{init(B),ar,r}});
  S("open-retry",{{init(A)},{ar,oopen(1,0,RD),mk(O_STAT,1)},{oopen(0,0,WR),w2}});
  if(th){ S("three-inits",{{init(A)},{init(B)},{init(KA),ar,st}},{},8); S("two-inits-two-openers",{{init(A)},{init(B)},{ar,st},{aw,w2}},{},8); S("three-over-existing",{{init(A)},{init(B)},{ar,st,r},{aw,w2}},{{0,init(A)}},8); }
}
// ---------------------------------------------------------------- C22 closing
void c22(bool th,std::vector<Scenario>&out){
  uint32_t rf[]={0,SHR_DROP,SHR_FARM,SHR_SYNC|SHR_MLOCK|SHR_APPDATA}; const char*nm[]={"plain","drop","farm","sync"};
  uint32_t kinds[]={RD,RD|NB,WR,WR|NB,WR|BUF,WR|BUF|NB};
  auto epi=[](int np,int nh){ Setup e; for(int p=0;p<np;p++) for(int h=0;h<nh;h++) e.push_back({p,mk(O_CLOSE,h)}); return e; };
  auto nolocks=[](std::string&w){ char b[100]; for(int p=0;p<K->nproc;p++) if(K->p[p].st==PS_IDLE){ int base=0; for(int i=0;i<4;i++) if(W->A[p].evtfd[i]>=0) base++; if(W->A[p].nopen==0&&(sim_fdcount(p)!=base||sim_mapcount(p)||sim_alloccount(p)||sim_lockcount(p))){ snprintf(b,sizeof b,"process %d keeps %d descriptors, %d mappings, %lld allocations after closing everything",p,sim_fdcount(p)-base,sim_mapcount(p),(long long)sim_alloccount(p)); w=b; return false; } } return true; };
  for(int i=0;i<4;i++){ // every kind of handle, every history, in two processes
    Scenario s=base("kinds-%s",nm[i]); s.nproc=2; s.drain_all=false; int cfg=add_cfg(4,3,MM|rf[i],5,900); s.setup={{0,oinit(0,cfg)}}; s.depth=6+(th?1:0); s.shards=8; s.splitdepth=2; s.conform=true; s.epilogue=epi(2,2); s.final_inv=nolocks;
    std::vector<uint32_t> ks(kinds,kinds+6);
    s.alpha=[ks](int p,Ops&v){ for(int h=0;h<2;h++){ if(!isopen(p,h)){ if(h==1&&!isopen(p,0)) continue; if(p==1){ if(h==0) add(v,{oopen(0,0,RD|NB),oopen(0,0,WR|NB|BUF)}); } else for(uint32_t k:ks) if(h==0||k==(RD|NB)||k==WR) v.push_back(oopen(h,0,k)); continue; } uint32_t f=W->spec.cs[0].h[p][h].flags; v.push_back(mk(O_CLOSE,h)); if(f&WR) add(v,{owrite(h,2)}); else add(v,{mk(O_READ,h,4)}); } };
    out.push_back(s); }
  { int k=0; struct { int n,mm,al; } cf[]={{100,5000,0},{4,3,20000},{9000,700,5000}}; for(auto&c:cf){ Scenario s=base("pages-%d",k++); s.nproc=2; s.drain_all=false; int cfg=add_cfg(c.n,c.mm,MM|(c.al?SHR_APPDATA:0),c.al,900); s.setup={{0,oinit(0,cfg)}}; s.depth=5; s.epilogue=epi(2,2); s.final_inv=nolocks; // slots and application data on pages of their own
    s.alpha=[](int p,Ops&v){ for(int h=0;h<2;h++) if(!isopen(p,h)){ if(p==0) add(v,{oopen(h,0,WR),oopen(h,0,RD|NB),oopen(h,0,WR|NB|BUF)}); else add(v,{oopen(h,0,RD|NB)}); break; } else { v.push_back(mk(O_CLOSE,h)); if(W->spec.cs[0].h[p][h].flags&WR) add(v,{owrite(h,2)}); else add(v,{mk(O_READ,h,4)}); } }; out.push_back(s); } }
  { Scenario s=base("flushwait-close"); s.nproc=2; s.drain_all=false; int cfg=add_cfg(3,3,MM); s.setup={{0,oinit(0,cfg)}}; s.depth=8; s.shards=8; s.splitdepth=2; s.conform=true; s.epilogue=epi(2,1); s.final_inv=nolocks;
    s.alpha=[](int p,Ops&v){ if(p==0){ if(!isopen(0,0)) add(v,{oopen(0,0,WR|BUF|NB)}); else add(v,{owrite(0,2),mk(O_FLUSH,0,1),mk(O_CLOSE,0)}); } else if(!isopen(1,0)) add(v,{oopen(0,0,RD)}); else add(v,{mk(O_READ,0,3),mk(O_CLOSE,0)}); }; out.push_back(s); }
  { Scenario s=base("waiters-come-and-go"); s.nproc=4; s.drain_all=false; int cfg=add_cfg(6,6,MM); s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,WR|NB)}}; s.depth=8+(th?1:0); s.shards=8; s.splitdepth=2; s.conform=true; s.epilogue=epi(4,1); s.final_inv=nolocks;
    s.alpha=[](int p,Ops&v){ if(p==0){ if(isopen(0,0)) add(v,{owrite(0,1),mk(O_CLOSE,0)}); else add(v,{oopen(0,0,WR|NB)}); } else if(isopen(p,0)) add(v,{mk(O_CLOSE,0)}); else add(v,{oopen(0,0,RD|NB)}); }; out.push_back(s); }
  { Scenario s=base("registered-descriptors"); s.nproc=2; s.evtinit=1; s.evts=2; s.drain_all=false; int cfg=add_cfg(3,2,MM); s.setup={{0,oinit(0,cfg)}}; s.depth=7; s.shards=4; s.splitdepth=2; s.epilogue=epi(2,1); s.final_inv=nolocks;
    s.alpha=[](int p,Ops&v){ if(p==0){ if(!isopen(0,0)) add(v,{oopen(0,0,WR),oopen(0,0,WR|BUF)}); else { add(v,{owrite(0,2),mk(O_POLLFD,0,0),mk(O_CLOSE,0)}); } } else if(!isopen(1,0)) add(v,{oopen(0,0,RD)}); else { add(v,{mk(O_READ,0,3),mk(O_CLOSE,0)}); if(!(W->spec.cs[0].h[1][0].evts&1)) add(v,{mk(O_POLLFD,0,0)}); } if(p==0&&isopen(0,0)&&(W->spec.cs[0].h[0][0].evts&1)) for(size_t i=0;i<v.size();i++) if(v[i].k==O_POLLFD){ v.erase(v.begin()+i); break; } }; out.push_back(s); }
  // failing opens and creates must leave nothing behind: at the 64 limit, and under faults with several waiters registered
  for(int wr=0;wr<2;wr++) { Scenario s=base(wr?"cycle-writers":"cycle-readers"); s.nproc=3; s.drain_all=false; s.cfg.max_sys=200000; int cfg=add_cfg(3,2,MM); s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,wr?(RD|NB):(WR|NB))}}; for(int i=0;i<66;i++){ s.setup.push_back({1+(i&1),oopen(0,0,kinds[(wr?2:0)+i%(wr?4:2)])}); if(wr&&i%5==0) s.setup.push_back({1+(i&1),owrite(0,1)}); if(wr&&i%5==0) s.setup.push_back({0,mk(O_READ,0,3)}); s.setup.push_back({1+(i&1),mk(O_CLOSE,0)}); }
    for(int i=0;i<60;i++) s.setup.push_back({2,oopen(i,0,wr?WR:RD)}); s.depth=6; s.shards=4; s.epilogue=epi(3,70); s.final_inv=nolocks; bool w=wr;
    s.alpha=[w](int p,Ops&v){ if(p==1){ for(int h=0;h<6;h++) if(!isopen(1,h)){ v.push_back(oopen(h,0,w?WR:(h&1?RD:(RD|NB)))); break; } for(int h: {0,3}) if(isopen(1,h)) v.push_back(mk(O_CLOSE,h)); } else if(p==2){ if(isopen(2,59)) v.push_back(mk(O_CLOSE,59)); } else if(!w) add(v,{owrite(0,1)}); }; out.push_back(s); }
  for(int i=0;i<4;i++){ Scenario s=base("fault-open-%s",nm[i]); s.nproc=4; s.faults=1; s.drain_all=false; int cfg=add_cfg(4,3,MM|rf[i],5,900); s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,RD|NB)},{1,oopen(0,0,RD)},{1,oopen(1,0,RD|NB)},{2,oopen(0,0,WR)},{2,oopen(1,0,WR)}}; s.depth=3+(th?1:0); s.shards=8; s.splitdepth=1; std::vector<uint32_t> ks(kinds,kinds+6); s.epilogue={{3,mk(O_CLOSE,0)},{3,oopen(1,0,WR|NB)},{3,owrite(1,2)},{3,mk(O_CLOSE,1)},{3,oopen(1,0,RD|NB)},{3,mk(O_READ,1,4)},{3,mk(O_CLOSE,1)}}; s.final_inv=[](std::string&w){ (void)w; return true; }; 
    s.alpha=[ks](int p,Ops&v){ if(p==3){ if(!isopen(3,0)) for(uint32_t k:ks) v.push_back(oopen(0,0,k)); else v.push_back(mk(O_CLOSE,0)); } else if(p==0){ if(isopen(0,0)) v.push_back(mk(O_CLOSE,0)); else v.push_back(oopen(0,0,RD|NB)); } }; out.push_back(s); }
  { Scenario s=base("fault-create"); s.nproc=1; s.faults=1; s.drain_all=false; int c1=add_cfg(4,3,MM|SHR_APPDATA|SHR_SYNC|SHR_MLOCK,5,900); s.depth=3; s.alpha=[c1](int,Ops&v){ v.push_back(oinit(0,c1)); if(isopen(0,0)) v.push_back(mk(O_CLOSE,0)); else if(W->spec.cs[0].path[0]>=0) v.push_back(oopen(0,0,WR)); }; s.epilogue={{0,mk(O_CLOSE,0)},{0,oinit(0,c1)},{0,oopen(0,0,RD|NB)},{0,mk(O_CLOSE,0)}}; out.push_back(s); }
  // concurrently: a close never disturbs the others
  Op r=mk(O_READ,0,8), cl=mk(O_CLOSE,0);
  auto MI=[&](const char*n,std::vector<uint32_t> fl,std::vector<Ops> pr,Setup pre=Setup()){ Scenario s=base("%s",n); s.nproc=fl.size(); int cfg=add_cfg(3,2,MM); s.setup={{0,oinit(0,cfg)}}; for(size_t i=0;i<fl.size();i++) if(fl[i]) s.setup.push_back({(int)i,oopen(0,0,fl[i])}); for(auto&x:pre) s.setup.push_back(x); s.micro=true; s.prog=pr; out.push_back(s); };
  MI("mi-close-reader",{WR,RD,RD},{{owrite(0,2),owrite(0,1)},{cl},{r,r}});
  MI("mi-close-writer",{WR,WR,RD},{{cl},{owrite(0,2),owrite(0,1)},{r,r}},{{0,owrite(0,2)}});
  MI("mi-close-buffered",{WR|BUF,WR,RD},{{owrite(0,2),cl},{owrite(0,2)},{r,r}});
  MI("mi-close-reopen",{WR,RD|NB,RD},{{owrite(0,2)},{cl,oopen(0,0,RD|NB),r},{r}});
}
// ---------------------------------------------------------------- C23 power loss
void c23(bool th,std::vector<Scenario>&out){
  uint32_t rf[]={0,SHR_DROP,SHR_FARM,SHR_APPDATA,SHR_APPDATA|SHR_DROP|SHR_MLOCK}; const char*nm[]={"plain","drop","farm","app","app-drop"}; int sz[]={4,4,5,3,5000};
  Ops back={oopen(0,0,RD|NB),mk(O_STAT,0),mk(O_APPGET,0,0)};
  for(int i=0;i<5;i++){ int n=sz[i]; int cfg=add_cfg(n,3,MM|SHR_SYNC|rf[i],7,900);
    { Scenario s=base("power-%s",nm[i]); s.nproc=2; s.powerfail=true; s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,WR|NB)},{1,oopen(0,0,RD|NB)}}; s.reborn={back}; s.depth=6+(th?1:0); s.shards=8; s.splitdepth=2; bool app=rf[i]&SHR_APPDATA; 
      s.alpha=[n,app](int p,Ops&v){ if(p==0){ add(v,{owrite(0,2),owritev(0,{1,1}),owrite(0,n),mk(O_STAT,0,5)}); if(app) add(v,{mk(O_APPSET,0,7),mk(O_APPGS,0,7)}); } else add(v,{mk(O_READ,0,n),mk(O_READV,0,n,3),mk(O_READ,0,1)}); }; out.push_back(s); }
    { Scenario s=base("power-inside-%s",nm[i]); s.nproc=2; s.powerfail=true; s.micro=true; s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,WR)},{1,oopen(0,0,RD)},{0,owrite(0,1)}}; s.reborn={back}; bool app=rf[i]&SHR_APPDATA; s.prog={{owrite(0,2),owritev(0,{1,1})},{mk(O_READ,0,n),mk(O_STAT,0,6),mk(O_READV,0,n,3)}}; if(app) s.prog[0].push_back(mk(O_APPGS,0,7)); out.push_back(s); } }
  { int k=0; struct { int n,mm,al; } cf[]={{2000,2000,0},{4,3,9000},{6000,900,100},{100,5000,4096}}; for(auto&c:cf){ int cfg=add_cfg(c.n,c.mm,MM|SHR_SYNC|(c.al?SHR_APPDATA:0),c.al,900); uint32_t b1=std::min(c.n,c.mm)*2/5; uint32_t n=c.n, al=c.al; // data, slots and application data spread over several pages
    Scenario s=base("power-pages-%d",k++); s.nproc=2; s.powerfail=true; s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,WR|NB)},{1,oopen(0,0,RD|NB)}}; s.reborn={back}; s.depth=5+(th?1:0); s.shards=4; s.splitdepth=2; s.alpha=[=](int p,Ops&v){ if(p==0){ if(b1>6) add(v,{owritevn(0,b1,1)}); add(v,{owrite(0,2),owrite(0,n)}); if(al) add(v,{mk(O_APPSET,0,al)}); } else add(v,{mk(O_READ,0,n),mk(O_READV,0,n,b1)}); }; out.push_back(s); } }
  { Scenario s=base("power-buffered"); s.nproc=2; s.powerfail=true; int cfg=add_cfg(5,3,MM|SHR_SYNC); s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,WR|NB|BUF)},{1,oopen(0,0,RD|NB)}}; s.reborn={back}; s.depth=7+(th?1:0); s.shards=8; s.splitdepth=2; s.alpha=[](int p,Ops&v){ if(p==0){ if(isopen(0,0)) add(v,{owrite(0,2),owritev(0,{1,2}),mk(O_FLUSH,0,0),mk(O_CLOSE,0)}); else add(v,{oopen(0,0,WR|NB|BUF)}); } else add(v,{mk(O_READ,0,5)}); }; out.push_back(s); }
  { Scenario s=base("power-blocked"); s.nproc=3; s.powerfail=true; s.reuse_pid=false; int cfg=add_cfg(3,2,MM|SHR_SYNC); s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,WR)},{1,oopen(0,0,RD)},{2,oopen(0,0,WR|BUF)}}; s.reborn={{oopen(0,0,WR|NB),owrite(0,1),mk(O_STAT,0)},back}; s.depth=6+(th?1:0); s.shards=8; s.splitdepth=2; s.alpha=[](int p,Ops&v){ if(p==0) add(v,{owrite(0,2),owrite(0,3)}); else if(p==1) add(v,{mk(O_READ,0,5)}); else add(v,{owrite(0,2),mk(O_FLUSH,0,0)}); }; out.push_back(s); }
  { Scenario s=base("power-open"); s.nproc=2; s.powerfail=true; s.micro=true; int cfg=add_cfg(4,2,MM|SHR_SYNC|SHR_APPDATA,5,900); s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,WR|NB)},{0,owrite(0,2)}}; s.reborn={back}; s.prog={{owrite(0,1),mk(O_CLOSE,0)},{oopen(0,0,RD|NB),mk(O_READ,0,4),mk(O_CLOSE,0)}}; out.push_back(s); }
}
