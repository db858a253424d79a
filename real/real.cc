// Replays explored traces with the normally built library in real processes on the
// real kernel and compares every result with the one the simulated kernel produced.
#include "explore.h"
#include "shr.h"
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
#include <errno.h>
#include <poll.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/eventfd.h>
#include <sys/prctl.h>
#include <time.h>
World *W; std::string g_dir;
const char*ring_path(int r){ static char b[4][200]; snprintf(b[r&3],200,"%s/ring%d",g_dir.c_str(),r); return b[r&3]; }
uint64_t bytes_hash(const uint8_t*p,size_t n){ H128 h=hash_bytes(p,n,{77,n}); return h.a^h.b; }
void exec_op(int p,const Op&o,Res&r);

struct Shm { sem_t go[NPROC], done[NPROC]; Op op[NPROC]; Res res[NPROC]; volatile int isdone[NPROC]; volatile int cmd[NPROC]; };
static Shm*M; static pid_t pid_[NPROC]; static int evfd[4];
static void worker(int p){ prctl(PR_SET_PDEATHSIG,SIGKILL); Act&a=W->A[p]; memset(&a,0,sizeof a); for(int i=0;i<4;i++) a.evtfd[i]=evfd[i];
  for(;;){ while(sem_wait(&M->go[p])<0); if(M->cmd[p]==2) _exit(0); if(M->cmd[p]==1){ for(int h=0;h<MAXH;h++) if(a.h[h]){ shr_close(a.h[h]); a.h[h]=nullptr; } } else exec_op(p,M->op[p],M->res[p]); M->isdone[p]=1; sem_post(&M->done[p]); } }
static void spawn(int p){ sem_destroy(&M->go[p]); sem_destroy(&M->done[p]); sem_init(&M->go[p],1,0); sem_init(&M->done[p],1,0); M->isdone[p]=0; pid_[p]=fork(); if(pid_[p]==0) worker(p); }
static void killw(int p){ if(pid_[p]){ kill(pid_[p],SIGKILL); waitpid(pid_[p],0,0); pid_[p]=0; } }
static bool waitdone(int p,double sec){ timespec t; clock_gettime(CLOCK_REALTIME,&t); t.tv_nsec+=(long)((sec-(long)sec)*1e9); t.tv_sec+=(long)sec+t.tv_nsec/1000000000; t.tv_nsec%=1000000000; while(sem_timedwait(&M->done[p],&t)<0) if(errno==ETIMEDOUT) return false; return true; }
static bool sleeping(int p){ char b[64],s[512]; snprintf(b,sizeof b,"/proc/%d/stat",pid_[p]); for(int k=0;k<400;k++){ FILE*f=fopen(b,"r"); if(!f) return false; size_t n=fread(s,1,511,f); s[n]=0; fclose(f); char*q=strrchr(s,')'); if(q&&q[2]=='S'&&k>0) return true; if(M->isdone[p]) return false; usleep(200);} return false; }
static int hexv(char c){ return c<='9'?c-'0':c-'a'+10; }
static void unhex(const char*s,void*o,size_t n){ for(size_t i=0;i<n;i++) ((uint8_t*)o)[i]=hexv(s[2*i])*16+hexv(s[2*i+1]); }
static bool g_others;
static bool same(const Op&o,const Res&a,const Res&b){ bool ok=a.rc==b.rc; if(o.k==O_SELFD) ok=(a.rc>=0)==(b.rc>=0); if(!ok) return false; if(a.n!=b.n||a.bytes!=b.bytes||a.digest!=b.digest||a.bad!=b.bad) return false; if(o.k!=O_OPEN&&memcmp(a.st,b.st,sizeof a.st)) return false; if(o.k!=O_OPEN&&a.sz!=b.sz) return false; if(a.ready!=b.ready&&!g_others) return false; return true; }
int main(int argc,char**argv){ // real PROPERTY tier DIR confs...
  if(argc<4) return 2; g_dir=argv[3]; std::vector<Scenario> sc; build_scenarios(argv[1],!strcmp(argv[2],"thorough"),sc);
  W=new World(); M=(Shm*)mmap(0,sizeof *M,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); for(int i=0;i<4;i++) evfd[i]=eventfd(0,EFD_NONBLOCK);
  signal(SIGPIPE,SIG_IGN); for(int p=0;p<NPROC;p++){ sem_init(&M->go[p],1,0); sem_init(&M->done[p],1,0);} 
  if(!getenv("REAL_VERBOSE")) { if(!freopen("/dev/null","w",stderr)) return 2; }
  time_t deadline=time(nullptr)+(getenv("REAL_BUDGET")?atoi(getenv("REAL_BUDGET")):3600);
  uint64_t traces=0,ops=0,bad=0,blk=0; uint32_t outst=0; char line[8192]; char first[1500]="";
  for(int a=4;a<argc;a++){ FILE*f=fopen(argv[a],"r"); if(!f) continue; int np=0,ne=0; bool skip=false, failed=false; bool dirty=false; std::string log; uint64_t n=0;
    while(fgets(line,sizeof line,f)){
      if(sscanf(line,"NPROC %d EVT %d",&np,&ne)==2) continue;
      if(!strncmp(line,"TRACE",5)){ if(time(nullptr)>=deadline) break; skip=failed=false; outst=0; log.clear(); for(int r=0;r<4;r++) unlink(ring_path(r)); for(int i=0;i<4;i++){ uint64_t v; if(read(evfd[i],&v,8)<0){} } for(int p=0;p<np;p++) if(!pid_[p]) spawn(p); continue; }
      if(!strncmp(line,"END",3)){ traces++; n++; bool stuck=dirty||failed; 
        if(!stuck) for(int p=0;p<np;p++) if(pid_[p]){ M->cmd[p]=1; M->isdone[p]=0; sem_post(&M->go[p]); if(!waitdone(p,1)) stuck=true; }
        if(stuck) for(int p=0;p<np;p++) killw(p); dirty=false; if(failed){ bad++; if(!first[0]) snprintf(first,sizeof first,"%s",log.c_str()); } continue; }
      if(skip) continue; int t,p,ar,done,k=0; if(sscanf(line,"%d %d %d %d %n",&t,&p,&ar,&done,&k)<4) continue; Op o; Res want; unhex(line+k,&o,sizeof o); char*q=strchr(line+k,' '); if(done) unhex(q+1,&want,sizeof want); bool nocmp=(t==0&&ar==1&&!done);
      auto cmp=[&](){ Res&g=M->res[p]; ops++; outst&=~(1u<<p); g_others=outst!=0; if(!same(o,want,g)){ char b[600]; snprintf(b,sizeof b,"trace %llu of %s: P%d op kind %d h%d a=%u: simulated rc=%lld n=%u ready=%d, real rc=%lld n=%u ready=%d",(unsigned long long)n,argv[a],p,o.k,o.h,o.a,(long long)want.rc,want.n,want.ready,(long long)g.rc,g.n,g.ready); log=b; failed=true; skip=true; } };
      if(t==0&&(o.k>=O_BWOPEN||(o.k==O_OPEN&&(o.flags&SHR_BUFFERED)))) dirty=true;
      switch(t){
        case 0: M->op[p]=o; memset(&M->res[p],0,sizeof(Res)); M->cmd[p]=0; M->isdone[p]=0; sem_post(&M->go[p]);
          if(nocmp){ if(!waitdone(p,5)){ log="setup op hangs"; failed=skip=true; } else ops++; }
          else if(done){ if(!waitdone(p,5)){ log="real call does not return"; failed=skip=true; } else cmp(); }
          else { blk++; outst|=1u<<p; if(!sleeping(p)){ char b[200]; snprintf(b,sizeof b,"trace %llu of %s: P%d op kind %d: simulated call waits, real one returned %lld",(unsigned long long)n,argv[a],p,o.k,(long long)M->res[p].rc); log=b; failed=skip=true; } dirty=true; } break;
        case 1: if(done){ if(!waitdone(p,5)){ log="real call is not woken"; failed=skip=true; } else cmp(); } break;
        case 3: outst&=~(1u<<p); killw(p); dirty=true; break;
        case 4: if(ar){ uint64_t v=1; if(write(evfd[p],&v,8)<0){} } else { uint64_t v; if(read(evfd[p],&v,8)<0){} } break;
        case 5: spawn(p); break; default: skip=true; } }
    fclose(f); for(int p=0;p<NPROC;p++) killw(p); }
  for(int r=0;r<4;r++) unlink(ring_path(r));
  printf("{\"traces\":%llu,\"calls\":%llu,\"blocked_calls\":%llu,\"disagreements\":%llu,\"first\":\"%s\"}\n",(unsigned long long)traces,(unsigned long long)ops,(unsigned long long)blk,(unsigned long long)bad,first); return 0; }
