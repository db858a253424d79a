// Scenarios: the bounded spaces explored for each property.
#include "explore.h"
#include "shr.h"
#include <cstdarg>
#include <cstdio>
static const uint32_t RD=SHR_RDONLY, WR=SHR_WRONLY, NB=SHR_NONBLOCK, BUF=SHR_BUFFERED;
typedef std::vector<std::pair<int,Op>> Setup; typedef std::vector<Op> Ops;
static bool isopen(int p,int h){ return W->A[p].h[h]!=nullptr; }
static Scenario base(const char*fmt,...){ Scenario s; char b[60]; va_list ap; va_start(ap,fmt); vsnprintf(b,sizeof b,fmt,ap); va_end(ap); s.name=b; s.drain_all=true; return s; }
#define A_(ops,x) ops.push_back(x)
static void add(Ops&v,std::initializer_list<Op> l){ for(auto&o:l) v.push_back(o); }
static const uint32_t MM=SHR_MAXMSGS_2;

// every size and every pair of sizes, on every tiny ring
enum { G_STAT=1, G_FLUSH=2, G_FARM=4 };
static void grid(std::vector<Scenario>&out,const char*nm,uint32_t ringfl,uint32_t wfl,uint32_t rfl,int what,int depth,int nmax=4,int mmax=3){
  for(int n=1;n<=nmax;n++) for(int mm=1;mm<=mmax;mm++){ Scenario s=base("grid-%s-n%d-m%d",nm,n,mm); s.nproc=what&G_FARM?3:2; int cfg=add_cfg(n,mm,MM|ringfl); s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,WR|wfl)},{1,oopen(0,0,RD|rfl)}}; if(what&G_FARM) s.setup.push_back({2,oopen(0,0,RD|rfl)}); s.depth=depth; s.shards=n>=3?8:1; s.splitdepth=2; s.conform=true; uint32_t N=n;
    s.alpha=[=](int p,Ops&v){ if(p==0){ for(uint32_t a=1;a<=N+1;a++) v.push_back(owrite(0,a)); for(uint32_t a=1;a<=N;a++) for(uint32_t b=1;b<=N&&a+b<=N+1;b++) v.push_back(owritev(0,{a,b})); if(mm>2&&N>2) add(v,{owritev(0,{1,1,1})}); if(what&G_FLUSH) add(v,{mk(O_FLUSH,0,0),mk(O_FLUSH,0,1)}); if(what&G_STAT) add(v,{mk(O_STAT,0,0),mk(O_STAT,0,7)}); }
      else { for(uint32_t a=1;a<=N;a++) v.push_back(mk(O_READ,0,a)); for(uint32_t k=2;k<=3;k++) v.push_back(mk(O_READV,0,N,k)); if(what&G_FARM) v.push_back(mk(O_FSTAT,0,0)); if(N>1) v.push_back(mk(O_READV,0,N-1,2)); } };
    if(what&G_STAT) s.epilogue={{0,mk(O_STAT,0,0)}}; out.push_back(s); } }
// ---------------------------------------------------------------- C01 FIFO
static void c01(bool th,std::vector<Scenario>&out){
  grid(out,"plain",0,NB,NB,0,th?6:5);
  struct { int n,mm,d; } cf[]={{4,2,7},{5,3,6},{6,4,6},{3,8,7}};
  for(auto&c:cf){ Scenario s=base("seq-n%d-m%d",c.n,c.mm); s.nproc=2; int cfg=add_cfg(c.n,c.mm,MM);
    s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,WR|NB)},{1,oopen(0,0,RD|NB)}}; s.depth=c.d+(th?2:0); s.shards=8; s.splitdepth=2; s.conform=true;
    int n=c.n; s.alpha=[n](int p,Ops&v){ if(p==0) add(v,{owrite(0,1),owrite(0,2),owrite(0,n-1),owritev(0,{1,2}),owritev(0,{2,1})}); else add(v,{mk(O_READ,0,n),mk(O_READV,0,n,2),mk(O_READV,0,n+3,9),mk(O_READ,0,1)}); };
    out.push_back(s); }
  for(int n=9;n<=17;n++){ Scenario s=base("batch3-n%d",n); s.nproc=2; int mm=3+n%3; int cfg=add_cfg(n,mm,MM); // every alignment padding, batches that use most of the slots
    s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,WR|NB)},{1,oopen(0,0,RD|NB)}}; s.depth=6+(th?2:0); s.shards=2; s.splitdepth=2; s.conform=true; uint32_t N=n;
    s.alpha=[N,mm](int p,Ops&v){ if(p==0){ add(v,{owritev(0,{1,2,3}),owritev(0,{1,1}),owrite(0,N-2)}); if(mm>3) add(v,{owritev(0,{2,1,1,1})}); } else add(v,{mk(O_READ,0,N),mk(O_READV,0,N,2),mk(O_READV,0,5,9)}); }; out.push_back(s); }
  { Scenario s=base("deep-wrap"); s.nproc=2; int cfg=add_cfg(5,3,MM); s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,WR|NB)},{1,oopen(0,0,RD|NB)}}; s.depth=th?15:12; s.shards=8; s.conform=true;
    s.alpha=[](int p,Ops&v){ if(p==0) add(v,{owrite(0,2),owrite(0,3)}); else add(v,{mk(O_READ,0,5)}); }; out.push_back(s); }
  { Scenario s=base("blocking-2w1r"); s.nproc=3; int cfg=add_cfg(4,3,MM); s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,WR)},{1,oopen(0,0,WR)},{2,oopen(0,0,RD)}}; s.depth=7+(th?2:0); s.shards=8; s.conform=true;
    s.alpha=[](int p,Ops&v){ if(p==0) add(v,{owrite(0,2),owrite(0,3)}); else if(p==1) add(v,{owritev(0,{1,2}),owrite(0,1)}); else add(v,{mk(O_READ,0,4),mk(O_READV,0,4,3)}); }; out.push_back(s); }
  { Scenario s=base("reopen"); s.nproc=2; int cfg=add_cfg(5,3,MM); s.setup={{0,oinit(0,cfg)}}; s.depth=8+(th?1:0); s.shards=8; s.conform=true;
    s.alpha=[](int p,Ops&v){ if(p==0){ if(!isopen(0,0)) add(v,{oopen(0,0,WR|NB)}); else add(v,{owrite(0,2),owritev(0,{1,2}),mk(O_CLOSE,0)}); } else { if(!isopen(1,0)) add(v,{oopen(0,0,RD|NB)}); else add(v,{mk(O_READ,0,5),mk(O_READV,0,5,3),mk(O_CLOSE,0)}); } }; out.push_back(s); }
  { Scenario s=base("one-process"); s.nproc=1; int cfg=add_cfg(4,3,MM); s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,WR|NB)},{0,oopen(1,0,RD|NB)},{0,oopen(2,0,WR|NB)},{0,oopen(3,0,RD|NB)}}; s.depth=6+(th?2:0); s.shards=8; s.conform=true;
    s.alpha=[](int,Ops&v){ add(v,{owrite(0,2),owrite(2,1),owritev(2,{1,2}),mk(O_READ,1,4),mk(O_READV,3,4,3)}); if(isopen(0,3)) {} }; out.push_back(s); }
  { Scenario s=base("large"); s.nproc=2; int cfg=add_cfg(70000,40,MM); s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,WR|NB)},{1,oopen(0,0,RD|NB)}}; s.depth=6; s.shards=8; s.conform=true;
    s.alpha=[](int p,Ops&v){ if(p==0) add(v,{owrite(0,65536),owrite(0,35001),owritev(0,{33000,70,1}),owrite(0,257)}); else add(v,{mk(O_READ,0,70000),mk(O_READV,0,70000,9),mk(O_READ,0,65536)}); }; out.push_back(s); }
}
// ---------------------------------------------------------------- C02 all-or-nothing
static void c02(bool th,std::vector<Scenario>&out){
  grid(out,"plain",0,NB,NB,0,th?5:4); grid(out,"blocking",0,0,0,0,th?5:4,3);
  struct { int n,mm,d; } cf[]={{3,2,4},{4,3,4},{2,4,4},{1,1,5},{8,3,4}};
  for(auto&c:cf){ Scenario s=base("limits-n%d-m%d",c.n,c.mm); s.nproc=2; int cfg=add_cfg(c.n,c.mm,MM); s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,WR|NB)},{1,oopen(0,0,RD|NB)}}; s.depth=c.d+(th?1:0); s.shards=8; s.splitdepth=2; s.conform=true; uint32_t n=c.n;
    s.alpha=[n](int p,Ops&v){ if(p==0){ add(v,{owrite(0,0),owrite(0,1),owrite(0,n),owrite(0,n+1),owritev(0,{}),owritev(0,{1,0}),owritev(0,{0,1}),owritev(0,{1,1}),owritev(0,{1,n-1}),owritev(0,{1,1,1}),owritev(0,{n,1}),owritev(0,{1,0,1})}); if(n>1) add(v,{owrite(0,n-1)}); }
      else { add(v,{mk(O_READ,0,n),mk(O_READ,0,1),mk(O_READ,0,0),mk(O_READV,0,n,2),mk(O_READV,0,n,0),mk(O_READV,0,2*n,7),mk(O_STAT,0)}); if(n>1) add(v,{mk(O_READV,0,n-1,3),mk(O_READ,0,n-1)}); } }; out.push_back(s); }
  { Scenario s=base("blocking-invalid"); s.nproc=2; int cfg=add_cfg(4,3,MM); s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,WR)},{1,oopen(0,0,RD)}}; s.depth=5; s.shards=4; s.conform=true;
    s.alpha=[](int p,Ops&v){ if(p==0) add(v,{owrite(0,0),owrite(0,5),owrite(0,3),owritev(0,{2,0}),owritev(0,{1,1,1,1}),owritev(0,{2,2}),owritev(0,{3,2})}); else add(v,{mk(O_READ,0,2),mk(O_READV,0,4,2),mk(O_READV,0,3,4)}); }; out.push_back(s); }
  { Scenario s=base("drop-invalid"); s.nproc=2; int cfg=add_cfg(4,3,MM|SHR_DROP); s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,WR)},{1,oopen(0,0,RD|NB)}}; s.depth=5; s.shards=4; s.conform=true;
    s.alpha=[](int p,Ops&v){ if(p==0) add(v,{owrite(0,0),owrite(0,5),owrite(0,3),owritev(0,{2,0}),owritev(0,{1,0,1}),owritev(0,{1,1,1,1}),owritev(0,{2,2}),owritev(0,{3,2})}); else add(v,{mk(O_READ,0,2),mk(O_READV,0,4,2),mk(O_STAT,0)}); }; out.push_back(s); }
  { Scenario s=base("buffered-invalid"); s.nproc=2; int cfg=add_cfg(4,3,MM); s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,WR|NB|BUF)},{1,oopen(0,0,RD|NB)}}; s.depth=5; s.shards=4; s.conform=true;
    s.alpha=[](int p,Ops&v){ if(p==0) add(v,{owrite(0,0),owrite(0,5),owrite(0,3),owritev(0,{2,0}),owritev(0,{1,0,1}),owritev(0,{1,1,1,1}),owritev(0,{2,2}),owritev(0,{3,2}),mk(O_FLUSH,0,0)}); else add(v,{mk(O_READ,0,2),mk(O_READV,0,4,2)}); }; out.push_back(s); }
}
// ---------------------------------------------------------------- C03 drop mode
static void c03(bool th,std::vector<Scenario>&out){
  grid(out,"drop",SHR_DROP,0,NB,0,th?6:5);
  struct { int n,mm,d; } cf[]={{4,2,7},{5,3,7},{6,5,6},{3,4,7},{8,3,6}};
  for(auto&c:cf){ Scenario s=base("drop-n%d-m%d",c.n,c.mm); s.nproc=2; int cfg=add_cfg(c.n,c.mm,MM|SHR_DROP); s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,WR)},{1,oopen(0,0,RD|NB)}}; s.depth=c.d+(th?2:0); s.shards=8; s.splitdepth=2; s.conform=true; uint32_t n=c.n; 
    s.alpha=[n](int p,Ops&v){ if(p==0) add(v,{owrite(0,1),owrite(0,2),owrite(0,n),owritev(0,{1,1}),owritev(0,{2,n-2})}); else add(v,{mk(O_READ,0,n),mk(O_READV,0,n,2),mk(O_READ,0,1)}); if(p==1&&W->nops>=3) add(v,{mk(O_STAT,0)}); }; out.push_back(s); }
  { Scenario s=base("drop-deep"); s.nproc=2; int cfg=add_cfg(5,3,MM|SHR_DROP); s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,WR|NB)},{1,oopen(0,0,RD|NB)}}; s.depth=th?14:11; s.shards=8; s.conform=true;
    s.alpha=[](int p,Ops&v){ if(p==0) add(v,{owrite(0,2),owrite(0,3)}); else add(v,{mk(O_READ,0,5)}); }; out.push_back(s); }
  { Scenario s=base("drop-2w-reopen"); s.nproc=3; int cfg=add_cfg(5,3,MM|SHR_DROP); s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,WR)},{1,oopen(0,0,WR|BUF)}}; s.depth=6+(th?1:0); s.shards=8; s.conform=true;
    s.alpha=[](int p,Ops&v){ if(p==0) add(v,{owrite(0,2),owritev(0,{1,3})}); else if(p==1) add(v,{owrite(0,2),mk(O_FLUSH,0,0)}); else if(isopen(2,0)) add(v,{mk(O_READ,0,5),mk(O_CLOSE,0)}); else add(v,{oopen(0,0,RD)}); }; out.push_back(s); }
}
// ---------------------------------------------------------------- C04 farm
static void c04(bool th,std::vector<Scenario>&out){
  grid(out,"farm",SHR_FARM,0,NB,G_FARM,th?5:4);
  struct { int n,mm,d; } cf[]={{4,2,7},{5,3,6},{6,8,6},{3,3,7}};
  for(auto&c:cf){ Scenario s=base("farm-n%d-m%d",c.n,c.mm); s.nproc=3; int cfg=add_cfg(c.n,c.mm,MM|SHR_FARM); s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,WR)},{1,oopen(0,0,RD|NB)},{2,oopen(0,0,RD|NB)}}; s.depth=c.d+(th?1:0); s.shards=8; s.splitdepth=2; s.conform=true; uint32_t n=c.n;
    s.alpha=[n](int p,Ops&v){ if(p==0) add(v,{owrite(0,1),owrite(0,2),owrite(0,n),owritev(0,{1,2})}); else if(p==1) add(v,{mk(O_READ,0,n),mk(O_FSTAT,0,0),mk(O_FSTAT,0,1)}); else add(v,{mk(O_READV,0,n,2),mk(O_READ,0,1)}); }; out.push_back(s); }
  { Scenario s=base("farm-late-open"); s.nproc=3; int cfg=add_cfg(5,3,MM|SHR_FARM); s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,WR|NB)},{1,oopen(0,0,RD|NB)}}; s.depth=7+(th?1:0); s.shards=8; s.conform=true;
    s.alpha=[](int p,Ops&v){ if(p==0) add(v,{owrite(0,2),owrite(0,3)}); else if(p==1) add(v,{mk(O_READ,0,5)}); else if(isopen(2,0)) add(v,{mk(O_READ,0,5),mk(O_FSTAT,0,0),mk(O_CLOSE,0)}); else add(v,{oopen(0,0,RD|NB)}); }; out.push_back(s); }
  { Scenario s=base("farm-blocking"); s.nproc=3; int cfg=add_cfg(4,3,MM|SHR_FARM); s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,WR)},{1,oopen(0,0,RD)},{2,oopen(0,0,RD)}}; s.depth=7+(th?1:0); s.shards=8; s.conform=true;
    s.alpha=[](int p,Ops&v){ if(p==0) add(v,{owrite(0,2),owritev(0,{1,1})}); else add(v,{mk(O_READ,0,4)}); if(p==2) add(v,{mk(O_FSTAT,0,1)}); }; out.push_back(s); }
  { Scenario s=base("farm-deep"); s.nproc=2; int cfg=add_cfg(7,4,MM|SHR_FARM); s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,WR)},{1,oopen(0,0,RD|NB)}}; s.depth=th?14:11; s.shards=8; s.conform=true;
    s.alpha=[](int p,Ops&v){ if(p==0) add(v,{owrite(0,2),owrite(0,3)}); else add(v,{mk(O_READ,0,7)}); }; s.epilogue={{1,mk(O_FSTAT,0,0)}}; out.push_back(s); }
}
// ---------------------------------------------------------------- C05 buffered writers
static void c05(bool th,std::vector<Scenario>&out){
  grid(out,"nb",0,NB|BUF,NB,G_FLUSH,th?6:5); grid(out,"blk",0,BUF,NB,G_FLUSH,th?6:5,3); grid(out,"drop",SHR_DROP,BUF,NB,G_FLUSH,th?6:5,3);
  for(int nb=0;nb<2;nb++) for(int drop=0;drop<2;drop++){ Scenario s=base("buf-%s%s",nb?"nb":"blk",drop?"-drop":""); s.nproc=2; int cfg=add_cfg(5,3,MM|(drop?SHR_DROP:0)); s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,WR|BUF|(nb?NB:0))},{1,oopen(0,0,RD|NB)}}; s.depth=7+(th?1:0); s.shards=8; s.splitdepth=2; s.conform=true;
    s.alpha=[](int p,Ops&v){ if(p==0) add(v,{owrite(0,2),owrite(0,5),owritev(0,{1,1}),mk(O_FLUSH,0,0),mk(O_STAT,0)}); else add(v,{mk(O_READ,0,5),mk(O_READV,0,4,9)}); }; out.push_back(s); }
  { Scenario s=base("buf-flushwait"); s.nproc=2; int cfg=add_cfg(4,3,MM); s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,WR|BUF|NB)},{1,oopen(0,0,RD|NB)}}; s.depth=7+(th?1:0); s.shards=8; s.splitdepth=2; s.conform=true;
    s.alpha=[](int p,Ops&v){ if(p==0) add(v,{owrite(0,2),owrite(0,3),mk(O_FLUSH,0,0),mk(O_FLUSH,0,1)}); else add(v,{mk(O_READ,0,4)}); }; out.push_back(s); }
  { Scenario s=base("buf-close"); s.nproc=2; int cfg=add_cfg(4,3,MM); s.setup={{0,oinit(0,cfg)},{1,oopen(0,0,RD|NB)}}; s.depth=8+(th?1:0); s.shards=8; s.splitdepth=2; s.conform=true;
    s.alpha=[](int p,Ops&v){ if(p==0){ if(!isopen(0,0)) add(v,{oopen(0,0,WR|BUF),oopen(0,0,WR|BUF|NB)}); else add(v,{owrite(0,2),owritev(0,{1,1}),mk(O_CLOSE,0)}); } else add(v,{mk(O_READ,0,4)}); }; out.push_back(s); }
  { Scenario s=base("buf-two-writers"); s.nproc=3; int cfg=add_cfg(5,4,MM); s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,WR|BUF)},{1,oopen(0,0,WR|NB)},{2,oopen(0,0,RD)}}; s.depth=7+(th?1:0); s.shards=8; s.splitdepth=2; s.conform=true;
    s.alpha=[](int p,Ops&v){ if(p==0) add(v,{owrite(0,2),owritev(0,{1,2}),mk(O_FLUSH,0,0)}); else if(p==1) add(v,{owrite(0,3)}); else add(v,{mk(O_READ,0,5)}); }; out.push_back(s); }
  { Scenario s=base("buf-large"); s.nproc=2; int cfg=add_cfg(12000,20,MM); s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,WR|BUF|NB)},{1,oopen(0,0,RD|NB)}}; s.depth=6+(th?1:0); s.shards=8; s.splitdepth=2; s.conform=true; // internal buffer a tenth of the ring
    s.alpha=[](int p,Ops&v){ if(p==0) add(v,{owrite(0,500),owrite(0,701),owrite(0,5000),owrite(0,1200),owritev(0,{1,9000}),mk(O_FLUSH,0,0)}); else add(v,{mk(O_READV,0,12000,99)}); if(p==0&&W->nops>1) add(v,{mk(O_STAT,0)}); }; out.push_back(s); }
  { Scenario s=base("buf-slots"); s.nproc=2; int cfg=add_cfg(4000,3,MM); s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,WR|BUF|NB)},{1,oopen(0,0,RD|NB)}}; s.depth=7+(th?1:0); s.shards=8; s.conform=true;
    s.alpha=[](int p,Ops&v){ if(p==0) add(v,{owrite(0,9),owritev(0,{1,2}),owritev(0,{3,2,1}),mk(O_FLUSH,0,0),mk(O_STAT,0)}); else add(v,{mk(O_READV,0,4000,2)}); }; out.push_back(s); }
}
// ---------------------------------------------------------------- C06 statistics
static void c06(bool th,std::vector<Scenario>&out){
  grid(out,"plain",0,NB,NB,G_STAT,th?5:4,3); grid(out,"drop",SHR_DROP,NB,NB,G_STAT,th?5:4,3); grid(out,"farm",SHR_FARM,NB,NB,G_STAT,th?5:4,3); grid(out,"buf",0,NB|BUF,NB,G_STAT|G_FLUSH,th?5:4,2);
  uint32_t fl[]={0,SHR_DROP,SHR_FARM}; const char*nm[]={"plain","drop","farm"};
  for(int i=0;i<3;i++){ Scenario s=base("stat-%s",nm[i]); s.nproc=2; int cfg=add_cfg(4,3,MM|fl[i]); s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,WR|NB)},{1,oopen(0,0,RD|NB)}}; s.depth=6+(th?1:0); s.shards=8; s.splitdepth=2; s.conform=true;
    s.alpha=[](int p,Ops&v){ if(p==0) add(v,{owrite(0,1),owrite(0,3),owrite(0,5),owritev(0,{1,2}),mk(O_STAT,0,0),mk(O_STAT,0,11)}); else add(v,{mk(O_READ,0,4),mk(O_READV,0,4,3),mk(O_READ,0,1),mk(O_STAT,0,0),mk(O_STAT,0,12)}); }; out.push_back(s); }
  for(int i=0;i<3;i++){ Scenario s=base("stat-batch-%s",nm[i]); s.nproc=2; int cfg=add_cfg(13,5,MM|fl[i]); s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,WR|NB)},{1,oopen(0,0,RD|NB)}}; s.depth=6+(th?1:0); s.shards=8; s.splitdepth=2; s.conform=true;
    s.alpha=[](int p,Ops&v){ if(p==0) add(v,{owrite(0,3),owrite(0,7),owritev(0,{1,2,3}),owritev(0,{4,1})}); else add(v,{mk(O_READV,0,13,9),mk(O_READV,0,7,3),mk(O_READV,0,13,2),mk(O_READ,0,2),mk(O_STAT,0,0)}); if(p==0&&W->nops>2) add(v,{mk(O_STAT,0,6)}); }; s.epilogue={{1,mk(O_STAT,0,0)}}; out.push_back(s); }
  { Scenario s=base("stat-reopen"); s.nproc=2; int cfg=add_cfg(5,3,MM|SHR_SYNC|SHR_MLOCK); s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,WR|BUF)}}; s.depth=7; s.shards=8; s.splitdepth=2; s.conform=true;
    s.alpha=[](int p,Ops&v){ if(p==0) add(v,{owrite(0,2),owrite(0,4),mk(O_FLUSH,0),mk(O_STAT,0,0),mk(O_STAT,0,9)}); else if(isopen(1,0)) add(v,{mk(O_READ,0,5),mk(O_STAT,0,8),mk(O_CLOSE,0)}); else add(v,{oopen(0,0,RD|NB)}); }; out.push_back(s); }
  { int k=0; uint32_t b[]={0,SHR_DROP,SHR_FARM,SHR_SYNC,SHR_MLOCK,SHR_APPDATA,SHR_APPDATA|SHR_SYNC|SHR_DROP,SHR_FARM|SHR_MLOCK|SHR_SYNC|SHR_APPDATA}; for(uint32_t f:b){ Scenario s=base("attr-%d",k++); s.nproc=1; int cfg=add_cfg(4,2,MM|f,5,900); s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,WR|NB)},{0,oopen(1,0,RD|NB)}}; s.depth=4; s.conform=true; s.alpha=[](int,Ops&v){ add(v,{owrite(0,3),mk(O_READ,1,4),mk(O_STAT,0,0),mk(O_STAT,1,5)}); }; out.push_back(s); } }
  { Scenario s=base("stat-3procs"); s.nproc=3; int cfg=add_cfg(4,3,MM); s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,WR)},{1,oopen(0,0,RD)},{2,oopen(0,0,RD|NB)}}; s.micro=true; s.prog={{owrite(0,2),owritev(0,{1,2})},{mk(O_READ,0,4)},{mk(O_STAT,0,0),mk(O_STAT,0,7),mk(O_STAT,0,0)}}; out.push_back(s); }
}
// ---------------------------------------------------------------- C07 atomicity
static void c07(bool th,std::vector<Scenario>&out){
  auto S3=[&](const char*n,uint32_t rf,int sz,int mm,uint32_t f0,uint32_t f1,uint32_t f2,std::vector<Ops> pr,Setup pre=Setup()){ Scenario s=base("%s",n); s.nproc=3; int cfg=add_cfg(sz,mm,MM|rf); s.setup={{0,oinit(0,cfg)}}; if(f0) s.setup.push_back({0,oopen(0,0,f0)}); if(f1) s.setup.push_back({1,oopen(0,0,f1)}); if(f2) s.setup.push_back({2,oopen(0,0,f2)}); for(auto&x:pre) s.setup.push_back(x); s.micro=true; s.prog=pr; out.push_back(s); };
  Op r=mk(O_READ,0,8), rv=mk(O_READV,0,8,4), st=mk(O_STAT,0,0), st9=mk(O_STAT,0,9);
  S3("2w-1r-nb",0,5,4,WR|NB,WR|NB,RD|NB,{{owritev(0,{1,2}),owrite(0,1)},{owritev(0,{2,1}),owrite(0,2)},{rv,r,rv}});
  S3("1w-2r-nb",0,6,4,WR|NB,RD|NB,RD|NB,{{owritev(0,{1,2}),owrite(0,3),owrite(0,1)},{r,rv},{rv,r}});
  S3("2w-1r-blk",0,4,3,WR,WR,RD,{{owritev(0,{1,2}),owrite(0,2)},{owritev(0,{2,1})},{r,rv,r}});
  S3("1w-2r-blk",0,4,3,WR,RD,RD,{{owritev(0,{1,1}),owrite(0,3)},{r},{rv,r}});
  S3("drop-1w-2r",SHR_DROP,4,3,WR,RD|NB,RD|NB,{{owritev(0,{1,2}),owrite(0,3),owritev(0,{2,2})},{r,rv},{rv,st}});
  S3("drop-2w-1r",SHR_DROP,4,2,WR,WR,RD,{{owritev(0,{1,2}),owrite(0,3)},{owritev(0,{2,2}),owrite(0,1)},{r,rv}});
  S3("farm-1w-2r",SHR_FARM,5,3,WR,RD|NB,RD,{{owritev(0,{1,2}),owrite(0,3),owrite(0,2)},{r,rv,mk(O_FSTAT,0,0)},{r,r}});
  S3("farm-2w-1r",SHR_FARM,4,3,WR,WR,RD|NB,{{owritev(0,{1,2}),owrite(0,1)},{owrite(0,2),owritev(0,{1,1})},{r,rv,r}});
  S3("buf-2w",0,5,4,WR|BUF,WR|BUF|NB,RD|NB,{{owrite(0,2),owrite(0,1),mk(O_FLUSH,0)},{owrite(0,1),owrite(0,2),mk(O_FLUSH,0)},{rv,rv}});
  S3("stat-reset",0,5,4,WR|NB,RD|NB,RD|NB,{{owrite(0,2),owritev(0,{1,1})},{r,st9},{st,mk(O_STAT,0,8),r}});
  S3("open-close",0,5,4,WR|NB,0,0,{{owrite(0,2),owrite(0,1)},{oopen(0,0,RD|NB),r,mk(O_CLOSE,0)},{oopen(0,0,RD|NB),r,st}});
  S3("open-farm",SHR_FARM,5,3,WR|NB,0,0,{{owrite(0,2),owrite(0,3)},{oopen(0,0,RD|NB),r,mk(O_CLOSE,0)},{oopen(0,0,RD|NB),rv,mk(O_FSTAT,0)}});
  { Scenario s=base("appdata"); s.nproc=3; int cfg=add_cfg(5,3,MM|SHR_APPDATA,9,900); s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,WR|NB)},{1,oopen(0,0,RD|NB)},{2,oopen(0,0,RD|NB)}}; s.micro=true; s.prog={{mk(O_APPSET,0,9),owrite(0,2)},{mk(O_APPGS,0,9),r},{mk(O_APPGET,0,0),mk(O_APPGET,0,12)}}; out.push_back(s); }
  if(th){ S3("2w-1r-blk-long",0,4,3,WR,WR,RD,{{owritev(0,{1,2}),owrite(0,2),owrite(0,1)},{owritev(0,{2,1}),owrite(0,3)},{r,rv,r,rv}});
    S3("2w-1r-nb-long",0,5,4,WR|NB,WR|NB,RD|NB,{{owritev(0,{1,2}),owrite(0,1),owrite(0,2)},{owritev(0,{2,1}),owrite(0,2),owrite(0,1)},{rv,r,rv,st}});
    Scenario s=base("4procs"); s.nproc=4; int cfg=add_cfg(5,3,MM); s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,WR)},{1,oopen(0,0,WR)},{2,oopen(0,0,RD)},{3,oopen(0,0,RD|NB)}}; s.micro=true; s.prog={{owritev(0,{1,2}),owrite(0,2)},{owrite(0,3)},{r,r},{rv,r}}; s.shards=8; s.splitdepth=6; s.max_states=20000000; out.push_back(s); }
}
// ---------------------------------------------------------------- C08 wakeups
static void c08(bool th,std::vector<Scenario>&out){
  Op r=mk(O_READ,0,8), rv=mk(O_READV,0,8,4);
  { Scenario s=base("macro-2w2r"); s.nproc=4; int cfg=add_cfg(4,2,MM); s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,WR)},{1,oopen(0,0,WR)},{2,oopen(0,0,RD)},{3,oopen(0,0,RD)}}; s.depth=7+(th?2:0); s.shards=8; s.conform=true;
    s.alpha=[](int p,Ops&v){ if(p==0) add(v,{owrite(0,2),owrite(0,4)}); else if(p==1) add(v,{owritev(0,{1,1})}); else if(p==2) add(v,{mk(O_READ,0,4)}); else add(v,{mk(O_READV,0,4,2),mk(O_READ,0,1)}); }; out.push_back(s); }
  { Scenario s=base("macro-mixed"); s.nproc=4; int cfg=add_cfg(4,3,MM); s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,WR)},{1,oopen(0,0,WR|BUF)},{2,oopen(0,0,RD)},{3,oopen(0,0,RD|NB)}}; s.depth=7+(th?1:0); s.shards=8; s.conform=true;
    s.alpha=[](int p,Ops&v){ if(p==0) add(v,{owrite(0,3)}); else if(p==1) add(v,{owrite(0,2),mk(O_FLUSH,0)}); else if(p==2) add(v,{mk(O_READ,0,4)}); else add(v,{mk(O_READV,0,4,2),mk(O_READ,0,1)}); }; out.push_back(s); }
  { Scenario s=base("macro-reopen"); s.nproc=3; int cfg=add_cfg(3,2,MM); s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,WR)}}; s.depth=8+(th?1:0); s.shards=8; s.conform=true;
    s.alpha=[](int p,Ops&v){ if(p==0) add(v,{owrite(0,2)}); else if(isopen(p,0)) add(v,{mk(O_READ,0,4),mk(O_CLOSE,0)}); else add(v,{oopen(0,0,RD)}); }; out.push_back(s); }
  { Scenario s=base("queue-full"); s.nproc=3; int cfg=add_cfg(6,6,MM); s.cfg.qlen=2; s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,WR)},{1,oopen(0,0,RD)},{2,oopen(0,0,RD)}}; s.depth=9+(th?1:0); s.shards=8; // wakeup queues that overflow
    s.alpha=[](int p,Ops&v){ if(p==0) add(v,{owrite(0,1)}); else add(v,{mk(O_READ,0,6)}); if(p==2) add(v,{mk(O_READV,0,6,6)}); }; out.push_back(s); }
  { Scenario s=base("flushwait"); s.nproc=3; int cfg=add_cfg(4,3,MM); s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,WR|NB|BUF)},{1,oopen(0,0,RD|NB)},{2,oopen(0,0,RD|NB)}}; s.depth=8; s.shards=8; s.conform=true;
    s.alpha=[](int p,Ops&v){ if(p==0) add(v,{owrite(0,3),mk(O_FLUSH,0,1)}); else add(v,{mk(O_READ,0,4)}); }; out.push_back(s); }
  auto MI=[&](const char*n,uint32_t rf,int sz,int mm,std::vector<uint32_t> fl,std::vector<Ops> pr,Setup pre=Setup(),int shards=1){ Scenario s=base("%s",n); s.nproc=fl.size(); int cfg=add_cfg(sz,mm,MM|rf); s.setup={{0,oinit(0,cfg)}}; for(size_t i=0;i<fl.size();i++) if(fl[i]) s.setup.push_back({(int)i,oopen(0,0,fl[i])}); for(auto&x:pre) s.setup.push_back(x); s.micro=true; s.prog=pr; s.shards=shards; s.splitdepth=6; out.push_back(s); };
  MI("sleep-read",0,4,2,{WR,RD},{{owrite(0,2),owrite(0,2),owrite(0,3)},{r,r,r}});
  MI("sleep-write",0,2,2,{WR,RD},{{owrite(0,2),owrite(0,2),owrite(0,1)},{r,r,r}});
  MI("two-readers",0,4,3,{WR,RD,RD},{{owritev(0,{1,1}),owrite(0,2)},{r,r},{r}});
  MI("two-writers",0,2,2,{WR,WR,RD},{{owrite(0,2)},{owrite(0,1),owrite(0,1)},{r,r,r}},{{0,owrite(0,2)}});
  MI("open-vs-write",0,4,3,{WR,0,0},{{owrite(0,2),owrite(0,2)},{oopen(0,0,RD),r},{oopen(0,0,RD),r}});
  MI("open-writer-vs-read",0,2,2,{WR,RD,0},{{owrite(0,2)},{r,r,r},{oopen(0,0,WR),owrite(0,1)}},{{0,owrite(0,2)}});
  MI("close-vs-write",0,4,3,{WR,RD,RD},{{owrite(0,2),owrite(0,1)},{r,mk(O_CLOSE,0)},{r}});
  MI("farm",SHR_FARM,4,3,{WR,RD,RD},{{owrite(0,2),owrite(0,3)},{r,r},{r}});
  MI("drop",SHR_DROP,4,3,{WR,RD,RD},{{owrite(0,2),owrite(0,3)},{r},{r}});
  MI("buffered",0,3,2,{WR|BUF,RD,RD},{{owrite(0,2),owrite(0,2),mk(O_FLUSH,0)},{r},{r}});
  MI("nb-reader",0,2,2,{WR,RD|NB,WR},{{owrite(0,2)},{r,rv},{owrite(0,1)}},{{0,owrite(0,2)}});
  if(th){ MI("4procs",0,2,2,{WR,WR,RD,RD},{{owrite(0,2),owrite(0,1)},{owrite(0,2)},{r,r},{r}},{},8); MI("sleep-both",0,2,2,{WR,RD,RD},{{owrite(0,2),owrite(0,2),owrite(0,1)},{r,r},{r}},{},4); }
}
// ---------------------------------------------------------------- C09 selectable descriptor
static void c09(bool th,std::vector<Scenario>&out){
  uint32_t fl[]={0,SHR_DROP,SHR_FARM}; const char*nm[]={"plain","drop","farm"};
  for(int i=0;i<3;i++) for(int pre=0;pre<2;pre++){ Scenario s=base("fd-%s%s",nm[i],pre?"-preloaded":""); s.nproc=3; int cfg=add_cfg(5,4,MM|fl[i]); s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,WR|NB)}}; if(pre){ s.setup.push_back({0,owrite(0,2)}); } s.depth=7+(th?1:0); s.shards=8; s.splitdepth=2; s.conform=true;
    s.alpha=[](int p,Ops&v){ if(p==0) add(v,{owrite(0,1),owritev(0,{2,1})}); else if(isopen(p,0)) add(v,{mk(O_READ,0,5),mk(O_READV,0,3,2),mk(O_CLOSE,0)}); else add(v,{oopen(0,0,RD|NB)}); if(p==2&&isopen(2,0)) add(v,{mk(O_READ,0,1)}); }; out.push_back(s); }
  { Scenario s=base("fd-kinds"); s.nproc=2; int cfg=add_cfg(5,4,MM); s.setup={{0,oinit(0,cfg)}}; s.depth=5; s.shards=4; s.conform=true;
    s.alpha=[](int p,Ops&v){ if(isopen(p,0)){ add(v,{mk(O_SELFD,0),mk(O_CLOSE,0)}); uint32_t f=W->spec.cs[0].h[p][0].flags; if(f&WR) add(v,{owrite(0,2)}); else if(f&NB) add(v,{mk(O_READ,0,5)}); } else add(v,{oopen(0,0,RD),oopen(0,0,RD|NB),oopen(0,0,WR),oopen(0,0,WR|NB),oopen(0,0,WR|NB|BUF),oopen(0,0,WR|BUF)}); }; out.push_back(s); }
  for(int q=1;q<=3;q++){ Scenario s=base("fd-queue%d",q); s.cfg.qlen=q; s.nproc=2; int cfg=add_cfg(9,9,MM); s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,WR|NB)},{1,oopen(0,0,RD|NB)}}; s.depth=11; s.shards=4;
    s.alpha=[](int p,Ops&v){ if(p==0) add(v,{owrite(0,1)}); else add(v,{mk(O_READ,0,9),mk(O_READV,0,9,9),mk(O_READV,0,2,9)}); }; out.push_back(s); }
  { Scenario s=base("fd-many-wakeups"); s.cfg.qlen=15; s.nproc=2; int cfg=add_cfg(40,40,MM); s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,WR|NB)},{1,oopen(0,0,RD|NB)}}; for(int i=0;i<14;i++) s.setup.push_back({0,owrite(0,1)}); s.depth=8; s.shards=4; s.conform=false;
    s.alpha=[](int p,Ops&v){ if(p==0) add(v,{owrite(0,1)}); else add(v,{mk(O_READ,0,9),mk(O_READV,0,40,40),mk(O_READV,0,40,5)}); }; out.push_back(s); }
  { int q=0; int fl[]={20,40,130,300,511,1023,1024,1025,2100}; for(int nw:fl){ Scenario s=base("fd-flood-%d",nw); s.cfg.qlen=q++%2?nw+1:4000; s.cfg.max_sys=2000000; s.nproc=2; int cfg=add_cfg(9,9,MM|SHR_DROP); s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,WR|NB)},{1,oopen(0,0,RD|NB)}}; for(int i=0;i<nw;i++) s.setup.push_back({0,owrite(0,1)}); s.depth=4; s.shards=1; s.conform=false; // a wakeup queue of thousands
    s.alpha=[](int p,Ops&v){ if(p==0) add(v,{owrite(0,1)}); else add(v,{mk(O_READ,0,9),mk(O_READV,0,9,9),mk(O_READV,0,9,5)}); }; out.push_back(s); } }
  Op r=mk(O_READ,0,8), rv=mk(O_READV,0,8,4);
  auto MI=[&](const char*n,uint32_t rf,std::vector<uint32_t> f,std::vector<Ops> pr,Setup pre=Setup()){ Scenario s=base("%s",n); s.nproc=f.size(); int cfg=add_cfg(5,4,MM|rf); s.setup={{0,oinit(0,cfg)}}; for(size_t i=0;i<f.size();i++) if(f[i]) s.setup.push_back({(int)i,oopen(0,0,f[i])}); for(auto&x:pre) s.setup.push_back(x); s.micro=true; s.prog=pr; out.push_back(s); };
  MI("mi-2readers",0,{WR|NB,RD|NB,RD|NB},{{owrite(0,1),owritev(0,{1,1})},{r,r},{rv}});
  MI("mi-2writers",0,{WR|NB,WR|NB,RD|NB},{{owrite(0,1),owrite(0,2)},{owritev(0,{1,1})},{r,rv,r}});
  MI("mi-open",0,{WR|NB,0,0},{{owrite(0,1),owrite(0,2)},{oopen(0,0,RD|NB),r},{oopen(0,0,RD|NB),mk(O_READ,0,1),mk(O_CLOSE,0)}});
  MI("mi-farm",SHR_FARM,{WR|NB,RD|NB,RD|NB},{{owrite(0,3),owritev(0,{2,2})},{r,r,r},{rv}});
  MI("mi-blocking-mix",0,{WR,RD,RD|NB},{{owrite(0,3),owritev(0,{2,2})},{r},{rv,r}});
}
// ---------------------------------------------------------------- C10 non-blocking and registered descriptors
static void c10(bool th,std::vector<Scenario>&out){
  { Scenario s=base("poll-reader"); s.nproc=2; s.evtinit=1; s.evts=3; int cfg=add_cfg(4,2,MM); s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,WR|NB)},{1,oopen(0,0,RD)},{1,mk(O_POLLFD,0,0)}}; s.depth=6+(th?1:0); s.shards=4; s.cfg.epchoice=true; s.conform=true;
    s.alpha=[](int p,Ops&v){ if(p==0) add(v,{owrite(0,2),owrite(0,4)}); else add(v,{mk(O_READ,0,4),mk(O_READV,0,4,2),mk(O_READ,0,1)}); }; out.push_back(s); }
  { Scenario s=base("poll-writer"); s.nproc=2; s.evtinit=1; s.evts=3; int cfg=add_cfg(4,2,MM); s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,WR)},{0,mk(O_POLLFD,0,0)},{1,oopen(0,0,RD|NB)}}; s.depth=6+(th?1:0); s.shards=4; s.cfg.epchoice=true; s.conform=true;
    s.alpha=[](int p,Ops&v){ if(p==0) add(v,{owrite(0,2),owrite(0,4),owritev(0,{1,1})}); else add(v,{mk(O_READ,0,4),mk(O_READV,0,4,2)}); }; out.push_back(s); }
  { Scenario s=base("poll-buffered"); s.nproc=2; s.evtinit=1; s.evts=3; int cfg=add_cfg(4,3,MM); s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,WR|BUF)},{0,mk(O_POLLFD,0,0)},{1,oopen(0,0,RD|NB)}}; s.depth=7+(th?1:0); s.shards=4; s.cfg.epchoice=true; s.conform=true;
    s.alpha=[](int p,Ops&v){ if(p==0) add(v,{owrite(0,2),owrite(0,3),mk(O_FLUSH,0,0)}); else add(v,{mk(O_READ,0,4)}); }; out.push_back(s); }
  { Scenario s=base("poll-flushwait"); s.nproc=2; s.evtinit=1; s.evts=3; int cfg=add_cfg(4,3,MM); s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,WR|NB|BUF)},{1,oopen(0,0,RD|NB)},{0,owrite(0,1)},{0,mk(O_FLUSH,0,1)},{0,mk(O_POLLFD,0,0)}}; s.depth=7+(th?1:0); s.shards=4; s.cfg.epchoice=true; s.conform=true; // a blocking flush of a non-blocking handle
    s.alpha=[](int p,Ops&v){ if(p==0) add(v,{owrite(0,2),owrite(0,3),mk(O_FLUSH,0,0),mk(O_FLUSH,0,1)}); else add(v,{mk(O_READ,0,4)}); }; out.push_back(s); }
  { Scenario s=base("poll-two"); s.nproc=3; s.evtinit=2; s.evts=3; int cfg=add_cfg(4,2,MM); s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,WR)},{1,oopen(0,0,RD)},{1,mk(O_POLLFD,0,0)},{1,mk(O_POLLFD,0,1)},{0,mk(O_POLLFD,0,1)},{2,oopen(0,0,RD|NB)}}; s.depth=5+(th?1:0); s.shards=4; s.cfg.epchoice=true; s.conform=true;
    s.alpha=[](int p,Ops&v){ if(p==0) add(v,{owrite(0,2),owrite(0,4)}); else add(v,{mk(O_READ,0,4)}); }; out.push_back(s); }
  for(int k=0;k<4;k++){ // every non-blocking kind, against peers that do nothing
    uint32_t rf[]={0,SHR_DROP,SHR_FARM,0}; Scenario s=base("nb-%d",k); s.nproc=3; int cfg=add_cfg(4,2,MM|rf[k]); s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,WR|NB|(k==3?BUF:0))},{1,oopen(0,0,RD|NB)},{2,oopen(0,0,RD|NB)}}; s.depth=6+(th?1:0); s.shards=4; s.conform=true;
    s.inv=[](std::string&w){ for(int p=0;p<3;p++) if(K->p[p].st==PS_EPW){ w="a call on a non-blocking handle waits"; return false; } return true; };
    bool buf=k==3; s.alpha=[buf](int p,Ops&v){ if(p==0){ add(v,{owrite(0,2),owrite(0,4),owritev(0,{1,1})}); if(buf) add(v,{mk(O_FLUSH,0,0)}); } else add(v,{mk(O_READ,0,4),mk(O_READV,0,4,2)}); }; out.push_back(s); }
  Op r=mk(O_READ,0,8);
  { Scenario s=base("mi-poll-read"); s.nproc=2; s.evtinit=1; s.evts=2; s.micro=true; s.cfg.epchoice=true; int cfg=add_cfg(4,2,MM); s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,WR)},{1,oopen(0,0,RD)},{1,mk(O_POLLFD,0,0)}}; s.prog={{owrite(0,2),owrite(0,1)},{r,r,r}}; out.push_back(s); }
  { Scenario s=base("mi-poll-write"); s.nproc=2; s.evtinit=1; s.evts=2; s.micro=true; s.cfg.epchoice=true; int cfg=add_cfg(2,2,MM); s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,WR)},{0,mk(O_POLLFD,0,0)},{1,oopen(0,0,RD)}}; s.prog={{owrite(0,2),owrite(0,2),owrite(0,1)},{r,r}}; out.push_back(s); }
}
// ---------------------------------------------------------------- C11 killed processes
static void c11(bool th,std::vector<Scenario>&out){
  Op r=mk(O_READ,0,8), rv=mk(O_READV,0,8,4); auto MI=[&](const char*n,uint32_t rf,int sz,int mm,std::vector<uint32_t> f,std::vector<Ops> pr,uint32_t kmask,Setup pre=Setup(),std::vector<Ops> reborn={},bool unnamed=true,int kills=1){ Scenario s=base("%s",n); s.nproc=f.size(); int cfg=add_cfg(sz,mm,MM|rf); s.setup={{0,oinit(0,cfg)}}; for(size_t i=0;i<f.size();i++) if(f[i]) s.setup.push_back({(int)i,oopen(0,0,f[i])}); for(auto&x:pre) s.setup.push_back(x); s.micro=true; s.prog=pr; s.kills=kills; s.killmask=kmask; s.reborn=reborn; s.cfg.unnamed_first=unnamed; 
    s.epilogue={}; for(size_t i=0;i<f.size();i++){ if(f[i]&WR) s.epilogue.push_back({(int)i,owrite(0,1)}); else s.epilogue.push_back({(int)i,mk(O_STAT,0,0)}); } out.push_back(s); };
  MI("kill-writer",0,4,2,{WR,WR,RD},{{owrite(0,2),owrite(0,2)},{owrite(0,1)},{r,r}},1);
  MI("kill-writer-blocked",0,2,2,{WR,WR,RD},{{owrite(0,2)},{owrite(0,1)},{r,r}},1,{{1,owrite(0,2)}});
  MI("kill-reader",0,2,2,{WR,RD,RD},{{owrite(0,2)},{r},{r}},2,{{0,owrite(0,2)}});
  MI("kill-reader-2w",0,2,2,{WR,WR,RD,RD|NB},{{owrite(0,2)},{owrite(0,1)},{r},{}},4,{{0,owrite(0,2)}});
  MI("kill-reader-batch",0,4,4,{WR,RD,RD|NB},{{owrite(0,4)},{rv},{r}},2,{{0,owritev(0,{1,1})}});
  MI("kill-reader-asleep",0,4,3,{WR,RD,RD},{{owrite(0,2),owrite(0,2)},{r},{r}},2);
  MI("kill-nb-reader",0,4,3,{WR,RD|NB,RD},{{owrite(0,2),owrite(0,2)},{r,r},{r}},2);
  MI("kill-in-open",0,4,3,{WR,0,RD},{{owrite(0,2)},{oopen(0,0,RD),r},{r}},2);
  MI("kill-in-open-writer",0,2,2,{WR,0,RD},{{owrite(0,2)},{oopen(0,0,WR),owrite(0,1)},{r}},2);
  MI("kill-in-close",0,4,3,{WR,RD,RD},{{owrite(0,2)},{r,mk(O_CLOSE,0)},{r}},2);
  MI("kill-drop",SHR_DROP,3,2,{WR,WR,RD},{{owrite(0,2),owritev(0,{1,1})},{owrite(0,2)},{r}},1);
  MI("kill-farm",SHR_FARM,3,2,{WR,WR,RD,RD|NB},{{owrite(0,2)},{owrite(0,2)},{r},{r}},1);
  MI("kill-buffered",0,4,3,{WR|BUF,WR,RD},{{owrite(0,2),owrite(0,1),mk(O_FLUSH,0)},{owrite(0,2)},{r}},1);
  MI("kill-stat",0,4,3,{WR,RD,RD},{{owrite(0,2)},{mk(O_STAT,0,3)},{r}},2);
  // the killed process's pid is taken over by a new process which does not have the ring open, or opens it
  for(int un=0;un<2;un++){ MI(un?"pid-reused":"pid-reused-b",0,4,3,{WR,RD,RD},{{owrite(0,2),owrite(0,1)},{r},{r}},2,{},{{},{oopen(0,0,RD|NB),r},{}},un);
    MI(un?"pid-reused-unrelated":"pid-reused-unrelated-b",0,4,3,{WR,RD,RD},{{owrite(0,2),owrite(0,1)},{r},{r}},2,{},{{},{oopen(0,1,RD)},{}},un); }
  for(int z=1;z<=3;z++){ // the dead process has not been reaped by its parent (or its pid belongs to another user's process); z==3: every process belongs to a different user
    auto Z=[&](){ out.back().name+=z==1?"-zombie":z==2?"-unreaped":"-users"; if(z<3) out.back().cfg.zombies=z; else out.back().cfg.proc_eacces=true; };
    MI("kill-reader-then-open",0,2,2,{WR,RD,0},{{owrite(0,2)},{r},{oopen(0,0,WR|NB),owrite(0,1),mk(O_CLOSE,0)}},2); Z();
    MI("kill-writer-then-open",0,2,2,{WR,RD|NB,0},{{owrite(0,2)},{r,r},{oopen(0,0,RD|NB),r}},1,{{0,owrite(0,2)}}); Z();
    MI("kill-reader-among",0,4,3,{WR,RD,RD},{{owrite(0,2),owrite(0,2)},{r},{r}},2); Z();
    Scenario s=base("macro-kill-open"); s.nproc=3; int cfg=add_cfg(3,2,MM); s.setup={{0,oinit(0,cfg)},{1,oopen(0,0,RD)},{2,oopen(0,0,WR)}}; s.killmask=6; s.depth=6+(th?1:0); s.kills=2; s.shards=8; s.alpha=[](int p,Ops&v){ if(!isopen(p,0)){ if(p==0) add(v,{oopen(0,0,WR|NB),oopen(0,0,RD|NB),oopen(0,0,WR),oopen(0,0,RD)}); return; } uint32_t f=W->spec.cs[0].h[p][0].flags; if(f&WR) add(v,{owrite(0,2),mk(O_CLOSE,0)}); else add(v,{mk(O_READ,0,4),mk(O_CLOSE,0)}); }; s.epilogue={{0,oopen(1,0,WR|NB)},{0,owrite(1,1)}}; out.push_back(s); Z(); }
  for(int pad: {60,140,300}){ MI("busy-host",0,4,3,{WR,RD,RD},{{owrite(0,2),owrite(0,2)},{r},{r}},2); out.back().name+=std::to_string(pad); out.back().cfg.unixpad=pad; MI("busy-host-open",0,2,2,{WR,RD,0},{{owrite(0,2)},{r},{oopen(0,0,WR|NB),owrite(0,1),mk(O_CLOSE,0)}},2); out.back().name+=std::to_string(pad); out.back().cfg.unixpad=pad; }
  { Scenario s=base("macro-kills"); s.nproc=4; int cfg=add_cfg(3,2,MM); s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,WR)},{1,oopen(0,0,WR)},{2,oopen(0,0,RD)},{3,oopen(0,0,RD)}}; s.depth=5+(th?2:0); s.kills=2; s.shards=8; s.conform=true; s.alpha=[](int p,Ops&v){ if(p==0) add(v,{owrite(0,2)}); else if(p==1) add(v,{owritev(0,{1,1})}); else add(v,{mk(O_READ,0,4)}); }; s.epilogue={{0,owrite(0,1)},{1,owrite(0,1)},{2,mk(O_STAT,0)}}; out.push_back(s); }
  { Scenario s=base("macro-kill-reborn"); s.nproc=3; int cfg=add_cfg(3,2,MM); s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,WR)},{1,oopen(0,0,RD)},{2,oopen(0,0,RD|NB)}}; s.reborn={{},{oopen(0,0,RD)},{oopen(0,0,RD)}}; s.killmask=6; s.depth=7; s.kills=2; s.shards=8; s.reuse_pid=true; s.alpha=[](int p,Ops&v){ if(p==0) add(v,{owrite(0,2)}); else if(isopen(p,0)) add(v,{mk(O_READ,0,4)}); else add(v,{oopen(0,0,RD|NB)}); }; s.epilogue={{0,owrite(0,1)}}; out.push_back(s); }
  if(th){ MI("kill-two",0,4,2,{WR,WR,RD},{{owrite(0,2),owrite(0,2)},{owrite(0,1)},{r,r}},3,{},{},true,2); MI("kill-any",0,3,2,{WR,WR,RD,RD},{{owrite(0,2)},{owrite(0,1)},{r},{r}},15,{{0,owrite(0,2)}}); }
}
// ---------------------------------------------------------------- C12 64 waiters
static void c12(bool th,std::vector<Scenario>&out){
  for(int fill=61;fill<=64;fill++){ Scenario s=base("readers-%d",fill); s.nproc=3; s.cfg.max_sys=2000000; int cfg=add_cfg(6,6,MM); s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,WR|NB)}}; for(int i=0;i<fill;i++) s.setup.push_back({i<2?2:1,oopen(i<2?i:i-2,0,RD|NB)}); s.depth=4+(th?1:0); s.kills=1; s.killmask=4; s.shards=8; s.splitdepth=1; s.leakcheck=true; s.drain_all=false;
    s.alpha=[](int p,Ops&v){ if(p==0){ add(v,{owrite(0,1)}); } else if(p==1){ for(int h: {0,31,60,61,62,63}) if(isopen(1,h)){ add(v,{mk(O_READ,h,6)}); if(h!=31&&h!=60) add(v,{mk(O_CLOSE,h)}); } if(isopen(1,31)) add(v,{mk(O_CLOSE,31)}); for(int h=0;h<66;h++) if(!isopen(1,h)){ add(v,{oopen(h,0,RD|NB)}); break; } } else { if(isopen(2,0)) add(v,{mk(O_CLOSE,0)}); else add(v,{oopen(0,0,RD|NB)}); } }; s.epilogue={{0,owrite(0,1)}}; out.push_back(s); }
  for(int fill=62;fill<=64;fill++){ Scenario s=base("writers-%d",fill); s.nproc=3; s.cfg.max_sys=2000000; int cfg=add_cfg(2,2,MM); s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,RD|NB)}}; for(int i=0;i<fill;i++) s.setup.push_back({i<2?2:1,oopen(i<2?i:i-2,0,WR)}); s.depth=4+(th?1:0); s.kills=1; s.killmask=4; s.shards=8; s.splitdepth=1; s.drain_all=false;
    s.alpha=[](int p,Ops&v){ if(p==0) add(v,{mk(O_READ,0,6)}); else if(p==1){ for(int h: {0,60,61,62,63}) if(isopen(1,h)){ add(v,{owrite(h,1)}); if(h!=60) add(v,{mk(O_CLOSE,h)}); } for(int h=0;h<66;h++) if(!isopen(1,h)){ add(v,{oopen(h,0,WR)}); break; } } else { if(isopen(2,0)) add(v,{mk(O_CLOSE,0),owrite(0,2)}); else add(v,{oopen(0,0,WR)}); } }; out.push_back(s); }
  for(int wr=0;wr<2;wr++){ Scenario s=base(wr?"dead-writers":"dead-readers"); s.nproc=4; s.cfg.max_sys=2000000; int cfg=add_cfg(6,6,MM); s.setup={{0,oinit(0,cfg)}}; uint32_t F=wr?WR:(RD|NB); s.setup.push_back({3,oopen(0,0,F)}); for(int i=0;i<10;i++) s.setup.push_back({2,oopen(i,0,F)}); for(int i=0;i<51;i++) s.setup.push_back({1,oopen(i,0,F)}); s.depth=4+(th?1:0); s.kills=1+(th?1:0); s.killmask=12; s.shards=8; s.splitdepth=2; s.drain_all=false; // waiters that die without anybody waking them
    s.alpha=[F](int p,Ops&v){ if(p==1){ for(int h=0;h<66;h++) if(!isopen(1,h)){ add(v,{oopen(h,0,F)}); break; } if(isopen(1,7)) add(v,{mk(O_CLOSE,7)}); } else if(p==3){ if(isopen(3,0)) add(v,{mk(O_CLOSE,0)}); } else if(p==0){ for(int h=0;h<3;h++) if(!isopen(0,h)){ add(v,{oopen(h,0,F)}); break; } } }; out.push_back(s); }
  for(int pad: {100,250}){ Scenario s=base("busy-host-%d",pad); s.nproc=3; s.cfg.unixpad=pad; s.cfg.max_sys=2000000; int cfg=add_cfg(6,6,MM); s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,WR|NB)}}; for(int i=0;i<62;i++) s.setup.push_back({i<2?2:1,oopen(i<2?i:i-2,0,RD|NB)}); s.depth=3+(th?1:0); s.kills=1; s.killmask=4; s.shards=2; s.splitdepth=1; s.drain_all=false;
    s.alpha=[](int p,Ops&v){ if(p==0) add(v,{owrite(0,1)}); else if(p==1){ for(int h=0;h<66;h++) if(!isopen(1,h)){ add(v,{oopen(h,0,RD|NB)}); break; } } else { if(isopen(2,0)) add(v,{mk(O_CLOSE,0)}); } }; s.epilogue={{0,owrite(0,1)}}; out.push_back(s); }
  { Scenario s=base("reuse"); s.nproc=4; int cfg=add_cfg(3,3,MM); s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,WR)}}; s.depth=8+(th?1:0); s.kills=1; s.killmask=6; s.shards=8; s.conform=true;
    s.alpha=[](int p,Ops&v){ if(p==0) add(v,{owrite(0,1)}); else if(isopen(p,0)) add(v,{mk(O_CLOSE,0)}); else add(v,{oopen(0,0,RD|NB)}); }; s.epilogue={{0,owrite(0,1)}}; out.push_back(s); }
  { Scenario s=base("reuse-blocking"); s.nproc=4; int cfg=add_cfg(3,3,MM); s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,WR)}}; s.depth=7+(th?1:0); s.kills=1; s.killmask=6; s.shards=8; s.conform=true;
    s.alpha=[](int p,Ops&v){ if(p==0) add(v,{owrite(0,1)}); else if(isopen(p,0)) add(v,{mk(O_CLOSE,0),mk(O_READ,0,3)}); else add(v,{oopen(0,0,RD)}); }; s.epilogue={{0,owrite(0,1)}}; out.push_back(s); }
}
// ---------------------------------------------------------------- C14 failing system calls
static void c14one(int deeper,int nf,std::vector<Scenario>&out){
  uint32_t rf[]={0,SHR_DROP,SHR_FARM,SHR_SYNC|SHR_MLOCK}; const char*nm[]={"plain","drop","farm","sync"};
  for(int i=0;i<4;i++){ Scenario s=base("fault-%s",nm[i]); s.nproc=3; s.faults=nf; int cfg=add_cfg(4,2,MM|rf[i]|SHR_APPDATA,6,900); s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,WR|NB)},{1,oopen(0,0,RD|NB)},{2,oopen(0,0,RD)}}; s.depth=4+deeper; s.shards=8; s.splitdepth=2;
    s.alpha=[](int p,Ops&v){ if(p==0) add(v,{owrite(0,2),owritev(0,{1,2}),mk(O_STAT,0,5),mk(O_APPSET,0,6)}); else if(p==1) add(v,{mk(O_READ,0,4),mk(O_READV,0,4,2),mk(O_APPGET,0,0)}); else add(v,{mk(O_READ,0,4)}); }; s.epilogue={{0,owrite(0,1)},{1,mk(O_READ,0,4)},{0,mk(O_STAT,0)}}; out.push_back(s); }
  { Scenario s=base("fault-blocking-write"); s.nproc=3; s.faults=nf; int cfg=add_cfg(2,2,MM); s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,WR)},{1,oopen(0,0,RD)},{2,oopen(0,0,WR)}}; s.depth=5+deeper; s.shards=8; s.splitdepth=2;
    s.alpha=[](int p,Ops&v){ if(p!=1) add(v,{owrite(0,2)}); else add(v,{mk(O_READ,0,4)}); }; out.push_back(s); }
  { Scenario s=base("fault-buffered"); s.nproc=2; s.faults=nf; int cfg=add_cfg(4,3,MM); s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,WR|BUF|NB)},{1,oopen(0,0,RD|NB)}}; s.depth=5+deeper; s.shards=8; s.splitdepth=2;
    s.alpha=[](int p,Ops&v){ if(p==0) add(v,{owrite(0,2),owrite(0,3),mk(O_FLUSH,0,0),mk(O_FLUSH,0,1)}); else add(v,{mk(O_READ,0,4)}); }; out.push_back(s); }
  { Scenario s=base("fault-open"); s.nproc=3; s.faults=nf; int cfg=add_cfg(4,3,MM|SHR_MLOCK|SHR_SYNC); s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,WR|NB)},{1,oopen(0,0,RD|NB)},{0,owrite(0,1)}}; s.depth=4+deeper; s.shards=8; s.splitdepth=2;
    s.alpha=[](int p,Ops&v){ if(p==2){ if(!isopen(2,0)) add(v,{oopen(0,0,RD|NB),oopen(0,0,WR),oopen(0,0,WR|BUF|NB),oopen(0,0,RD)}); else add(v,{mk(O_CLOSE,0)}); } else if(p==0) add(v,{owrite(0,1)}); else add(v,{mk(O_READ,0,4)}); }; s.epilogue={{0,owrite(0,1)},{2,mk(O_CLOSE,0)},{2,oopen(0,0,RD|NB)},{2,mk(O_READ,0,4)}}; out.push_back(s); }
  for(int nb=0;nb<2;nb++){ Scenario s=base("fault-open-buffered-%d",nb); s.nproc=2; s.faults=nf; int cfg=add_cfg(4,3,MM); uint32_t fl=WR|BUF|(nb?NB:0); s.setup={{0,oinit(0,cfg)},{1,oopen(0,0,RD|NB)}}; s.depth=5+deeper; s.shards=8; s.splitdepth=2; // a handle that opened although something failed works
    s.alpha=[fl](int p,Ops&v){ if(p==1) add(v,{mk(O_READ,0,4)}); else if(!isopen(0,0)) add(v,{oopen(0,0,fl)}); else add(v,{owrite(0,2),owritev(0,{1,2}),mk(O_FLUSH,0,0),mk(O_CLOSE,0)}); }; s.epilogue={{0,mk(O_CLOSE,0)},{0,oopen(0,0,fl)},{0,owrite(0,1)},{0,mk(O_FLUSH,0)},{1,mk(O_READ,0,4)}}; out.push_back(s); }
  { Scenario s=base("fault-init"); s.nproc=2; s.faults=nf; int cfg=add_cfg(4,3,MM|SHR_APPDATA,5,900), cfg2=add_cfg(4,3,MM|SHR_KEEPEXIST); s.depth=4+deeper; s.shards=4; s.splitdepth=1; (void)cfg2;
    s.alpha=[cfg,cfg2](int p,Ops&v){ if(p==0){ if(W->spec.cs[0].path[0]<0) add(v,{oinit(0,cfg),oinit(0,cfg2)}); else if(!isopen(0,0)) add(v,{oopen(0,0,WR|NB)}); else add(v,{owrite(0,2)}); } else if(!isopen(1,0)) add(v,{oopen(0,0,RD|NB)}); else add(v,{mk(O_READ,0,4)}); }; s.epilogue={{0,oinit(0,cfg2)},{0,oopen(0,0,WR|NB)},{1,oopen(0,0,RD|NB)},{0,owrite(0,1)}}; out.push_back(s); }
  { Scenario s=base("fault-slots"); s.nproc=3; s.faults=nf; int cfg=add_cfg(4,3,MM); s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,WR|NB)},{1,oopen(0,0,RD|NB)},{2,oopen(0,0,RD|NB)},{0,owrite(0,1)}}; s.kills=1; s.killmask=4; s.depth=4+deeper; s.shards=8; s.splitdepth=2;
    s.alpha=[](int p,Ops&v){ if(p==0) add(v,{owrite(0,1)}); else if(!isopen(p,0)) add(v,{oopen(0,0,RD|NB)}); else add(v,{mk(O_READ,0,4),mk(O_CLOSE,0)}); }; s.epilogue={{0,owrite(0,1)}}; out.push_back(s); }
}
static void c14(bool th,std::vector<Scenario>&out){
  c14one(th?2:1,1,out);
  std::vector<Scenario> two; c14one(th?1:0,2,two); for(auto&s:two) if(s.name!="fault-init"){ s.name+="-two"; out.push_back(s); }   // (when creating fails, and removing the partial file fails too, it stays) any two failures, in one call or in different ones
}
// ---------------------------------------------------------------- C15 application data
static void c15(bool th,std::vector<Scenario>&out){
  for(int al: {1,7,8,9,64}){ Scenario s=base("app-%d",al); s.nproc=2; int cfg=add_cfg(5,3,MM|SHR_APPDATA,al,900); s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,WR|NB)},{1,oopen(0,0,RD|NB)}}; s.depth=4+(th?1:0); s.shards=8; s.splitdepth=1; s.conform=true; uint32_t a=al;
    s.alpha=[a](int p,Ops&v){ if(p==0) add(v,{owrite(0,5),owritev(0,{2,1}),mk(O_APPSET,0,a),mk(O_APPSET,0,a+1),mk(O_APPGS,0,a),mk(O_APPGS,0,a+3),mk(O_APPGET,0,0)}); else add(v,{mk(O_READV,0,5,3),mk(O_APPGET,0,0),mk(O_APPGET,0,a),mk(O_APPGET,0,a+1),mk(O_APPGET,0,a+40)}); if(a>1&&p==0) add(v,{mk(O_APPSET,0,a-1),mk(O_APPGS,0,a-1),mk(O_APPGET,0,a-1)}); }; s.epilogue={{1,mk(O_APPGET,0,0)},{0,mk(O_APPGET,0,al+1)}}; out.push_back(s); }
  { Scenario s=base("app-none"); s.nproc=2; int cfg=add_cfg(5,3,MM); s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,WR|NB)},{1,oopen(0,0,RD|NB)}}; s.depth=4; s.shards=1; s.conform=true; s.alpha=[](int p,Ops&v){ if(p==0) add(v,{owrite(0,5),mk(O_APPSET,0,4),mk(O_APPGS,0,4)}); else add(v,{mk(O_READ,0,5),mk(O_APPGET,0,0),mk(O_APPGET,0,9)}); }; out.push_back(s); }
  { Scenario s=base("app-wrap"); s.nproc=2; int cfg=add_cfg(3,2,MM|SHR_APPDATA|SHR_DROP,5,900); s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,WR|NB)},{1,oopen(0,0,RD|NB)}}; s.depth=8; s.shards=4; s.conform=true; s.alpha=[](int p,Ops&v){ if(p==0) add(v,{owrite(0,2),owrite(0,3),owritev(0,{1,1})}); else add(v,{mk(O_READ,0,5),mk(O_APPGET,0,0)}); }; s.epilogue={{1,mk(O_APPGET,0,0)},{1,mk(O_APPGET,0,9)}}; out.push_back(s); }
  { Scenario s=base("app-big"); s.nproc=2; int cfg=add_cfg(100,0,SHR_APPDATA,4097,900); g_cfgs[cfg].mm=101; s.setup={{0,oinit(0,cfg)},{0,oopen(0,0,WR|NB)},{1,oopen(0,0,RD)}}; s.depth=4; s.shards=2; s.conform=true; s.alpha=[](int p,Ops&v){ if(p==0) add(v,{owrite(0,50),mk(O_APPSET,0,4097),mk(O_APPGS,0,4097),mk(O_APPGET,0,4096)}); else add(v,{mk(O_APPGET,0,0),mk(O_APPGET,0,4097),mk(O_APPGET,0,5000)}); }; out.push_back(s); }
}
void c16(bool,std::vector<Scenario>&); void c17(bool,std::vector<Scenario>&); void c21(bool,std::vector<Scenario>&); void c22(bool,std::vector<Scenario>&); void c23(bool,std::vector<Scenario>&); void c13(bool,std::vector<Scenario>&);
__attribute__((weak)) void c13(bool,std::vector<Scenario>&){}
void build3(const std::string&,bool,std::vector<Scenario>&);
void build_scenarios(const std::string&p,bool th,std::vector<Scenario>&out){
  build3(p,th,out);
  if(p=="C01") c01(th,out); else if(p=="C02") c02(th,out); else if(p=="C03") c03(th,out); else if(p=="C04") c04(th,out); else if(p=="C05") c05(th,out); else if(p=="C06") c06(th,out); else if(p=="C07") c07(th,out); else if(p=="C08") c08(th,out); else if(p=="C09") c09(th,out); else if(p=="C10") c10(th,out); else if(p=="C11") c11(th,out); else if(p=="C12") c12(th,out); else if(p=="C13") c13(th,out); else if(p=="C14") c14(th,out); else if(p=="C15") c15(th,out);
  else if(p=="C16") c16(th,out); else if(p=="C17") c17(th,out); else if(p=="C21") c21(th,out); else if(p=="C22") c22(th,out); else if(p=="C23") c23(th,out);
}
