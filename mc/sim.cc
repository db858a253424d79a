#include "sim.h"
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cerrno>
#include <csetjmp>
#include <csignal>
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include <sys/epoll.h>
#include <sys/ioctl.h>
#include <sys/un.h>
#include <sys/file.h>
#include <sys/uio.h>

Kernel *K = (Kernel*)ARENA_BASE;
SimCfg SC;
bool g_viol; char g_violmsg[400];
ActorFn g_actor_main;
int g_cur = -1;
uint64_t g_racy_count; uint64_t g_unmodelled; bool g_init_writes_count; bool g_in_init[NPROC];
int g_fault_kinds_seen;
static uint64_t g_nsys; uint64_t sim_stat_calls(){return g_nsys;}

// code-under-test writable data (sections renamed by the build), one copy per process
extern "C" { __attribute__((weak)) extern char __start_sutdata[]; __attribute__((weak)) extern char __stop_sutdata[];
             __attribute__((weak)) extern char __start_sutbss[];  __attribute__((weak)) extern char __stop_sutbss[]; }
static size_t sd_n, sb_n; static uint8_t *sd_init, *sd_copy[NPROC];
static int sd_live=-1;
static void sut_size(){ sd_n = __start_sutdata ? __stop_sutdata-__start_sutdata : 0; sb_n = __start_sutbss ? __stop_sutbss-__start_sutbss : 0;
  if (sd_n+sb_n > (1u<<20)) { sd_n = sb_n = 0; } }
static void sut_out(uint8_t*c){ if(sd_n) memcpy(c,__start_sutdata,sd_n); if(sb_n) memcpy(c+sd_n,__start_sutbss,sb_n); }
static void sut_in(const uint8_t*c){ if(sd_n) memcpy(__start_sutdata,c,sd_n); if(sb_n) memcpy(__start_sutbss,c+sd_n,sb_n); }

// ---------------------------------------------------------------- coroutines
static void *g_expl_sp; static jmp_buf g_jb; static bool g_in_co;
extern "C" void co_switch(void **save, void *load);
asm(R"(
.text
.globl co_switch
.type co_switch,@function
co_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size co_switch,.-co_switch
)");
static void co_entry(){ g_actor_main(g_cur); for(;;){ actor_yield(PS_DEAD); } }

void sim_violation(const char *fmt, ...){
  if(!g_viol){ va_list ap; va_start(ap,fmt); vsnprintf(g_violmsg,sizeof g_violmsg,fmt,ap); va_end(ap); g_viol=true; }
  if(g_in_co){ g_in_co=false; _longjmp(g_jb,1); }
}
static void on_sig(int sig, siginfo_t *si, void *){
  if(g_in_co) sim_violation("crash: signal %d (%s)%s", sig, strsignal(sig), "");
  signal(sig,SIG_DFL); raise(sig);
}
void actor_yield(uint8_t st){ Proc&p=K->p[g_cur]; p.st=st; co_switch(&p.sp,g_expl_sp); }

static uint64_t g_acc;
void sim_resume(int pi){
  Proc&p=K->p[pi];
  if(sd_live!=pi && (sd_n||sb_n)){ if(sd_live>=0) sut_out(sd_copy[sd_live]); sut_in(sd_copy[pi]); }
  sd_live=pi; g_cur=pi; g_acc=0;
  if(p.st==PS_IDLE && SC.stack_clear) memset((char*)p.sp-SC.stack_clear,0,SC.stack_clear-64);
  g_in_co=true;
  if(_setjmp(g_jb)==0) co_switch(&g_expl_sp,p.sp);
  g_in_co=false; g_cur=-1;
  if(sd_live>=0 && (sd_n||sb_n)) sut_out(sd_copy[sd_live]);
}

// ---------------------------------------------------------------- boot / reset
static int g_memfd;
static uint8_t *g_durable[NFILES];
static void mustmap(uintptr_t a,size_t n,int fl,int fd){ void*r=mmap((void*)a,n,PROT_READ|PROT_WRITE,fl|MAP_FIXED_NOREPLACE|MAP_NORESERVE,fd,0);
  if(r!=(void*)a){ perror("sim map"); _exit(3);} }
static const size_t FTOT = (size_t)NFILES*FAREA;
static bool view_up[NVIEW]; static void view_need(int v){ if(!view_up[v]){ view_up[v]=true; mustmap(FVIEW+v*FTOT,FTOT,MAP_SHARED,g_memfd); } }
void sim_boot(){
  static bool done; if(done) return; done=true;
  mustmap(ARENA_BASE,(sizeof(Kernel)+4095)&~4095ull,MAP_PRIVATE|MAP_ANONYMOUS,-1);
  for(int i=0;i<NPROC;i++){ mustmap(HEAP_BASE+i*HEAP_STRIDE,HEAP_STRIDE,MAP_PRIVATE|MAP_ANONYMOUS,-1);
    mustmap(STACK_BASE+i*(STACK_SIZE*2),STACK_SIZE,MAP_PRIVATE|MAP_ANONYMOUS,-1); }
  g_memfd=memfd_create("simfiles",0); if(g_memfd<0||ftruncate(g_memfd,FTOT)<0){perror("memfd");_exit(3);}
  mustmap(FCANON,FTOT,MAP_SHARED,g_memfd);
  sut_size(); sd_init=(uint8_t*)malloc(sd_n+sb_n+1); sut_out(sd_init);
  for(int i=0;i<NPROC;i++) sd_copy[i]=(uint8_t*)malloc(sd_n+sb_n+1);
  for(int i=0;i<NFILES;i++) g_durable[i]=nullptr;
  static char alt[65536]; stack_t ss={}; ss.ss_sp=alt; ss.ss_size=sizeof alt; sigaltstack(&ss,nullptr);
  struct sigaction sa={}; sa.sa_sigaction=on_sig; sa.sa_flags=SA_SIGINFO|SA_ONSTACK|SA_NODEFER;
  for(int s: {SIGSEGV,SIGBUS,SIGILL,SIGFPE}) sigaction(s,&sa,nullptr);
}
uint8_t *sim_file_data(int f){ return (uint8_t*)FCANON+(size_t)f*FAREA; }
static void blk_forget();
void sim_reset(int nproc){ blk_forget();
  memset((void*)K,0,sizeof *K); K->nproc=nproc; K->ino_ctr=100; K->name_ctr=0x10; K->sgen=1; g_viol=false;
  for(int f=0;f<NFILES;f++) {}
  for(int i=0;i<NPROC;i++){ memcpy(sd_copy[i],sd_init,sd_n+sb_n); g_in_init[i]=false; }
  sd_live=-1;
  for(int i=0;i<nproc;i++){
    Proc&p=K->p[i]; p.st=PS_IDLE; p.pid=1001+i; p.brk=HEAP_BASE+i*HEAP_STRIDE;
    for(int j=0;j<NFD;j++) p.fds[j]=-1;
    p.maxfd=0;
    char*top=(char*)STACK_BASE+i*(STACK_SIZE*2)+STACK_SIZE-64;
    memset((char*)STACK_BASE+i*(STACK_SIZE*2)+STACK_SIZE-32768,0,32768);
    void**sp=(void**)top; *--sp=nullptr; *--sp=(void*)co_entry; for(int k=0;k<6;k++) *--sp=nullptr; p.sp=sp;
  }
  for(int i=0;i<NPROC;i++) for(int j=0;j<NFD;j++) K->p[i].fds[j]=-1;
}

// ---------------------------------------------------------------- descriptors
static Proc& cur(){ return K->p[g_cur]; }
#define ERR(e) do{ cur().err=(e); return -1; }while(0)
static int new_desc(uint8_t t,int obj){ for(int i=0;i<NDESC;i++) if(K->d[i].ref==0 || i>=K->maxdesc){ K->d[i]={t,0,(int16_t)obj,0,0}; if(i>=K->maxdesc)K->maxdesc=i+1; return i; }
  fprintf(stderr,"sim: out of descriptions\n"); _exit(3); }
static int fd_install_p(int pi,int d){ Proc&p=K->p[pi]; for(int i=3;i<NFD;i++) if(i>=p.maxfd||p.fds[i]<0){ p.fds[i]=d; if(i>=p.maxfd){ for(int j=p.maxfd;j<i;j++) if(j<3) p.fds[j]=-1; p.maxfd=i+1;} K->d[d].ref++; return i; }
  return -1; }
static int fd_install(int d){ int fd=fd_install_p(g_cur,d); if(fd<0){ cur().err=EMFILE; } return fd; }
static Desc* fdesc(int pi,int fd){ Proc&p=K->p[pi]; if(fd<0||fd>=p.maxfd||p.fds[fd]<0) return nullptr; return &K->d[p.fds[fd]]; }
static int new_sock(){ for(int i=0;i<NSOCK;i++) if(!K->s[i].used||i>=K->maxsock){ memset(&K->s[i],0,sizeof(Sock)); K->s[i].used=1; K->s[i].peer=-1; K->s[i].owner=g_cur; K->s[i].ino=++K->ino_ctr; K->s[i].gen=++K->sgen; if(i>=K->maxsock)K->maxsock=i+1; return i; }
  fprintf(stderr,"sim: out of sockets\n"); _exit(3); }
static void file_unref(int f){ if(--K->f[f].nref==0 && !K->f[f].linked){ K->f[f].used=0; } }
static void desc_unref(int di,int pi){
  Desc&d=K->d[di];
  if(--d.ref>0) return;
  if(d.type==D_FILE) file_unref(d.obj);
  if(d.type==D_SOCK){ K->s[d.obj].used=0; K->s[d.obj].gen=0; K->s[d.obj].qn=0; }
  if(d.type==D_EPOLL) K->e[d.obj].used=0;
  if(d.type==D_SOCK||d.type==D_EVT||d.type==D_STREAM) for(int e=0;e<K->maxep;e++) if(K->e[e].used){ Epoll&E=K->e[e]; for(int k=0;k<E.n;) if(E.it[k].desc==di){ for(int m=k;m+1<E.n;m++)E.it[m]=E.it[m+1]; E.n--; memset(&E.it[E.n],0,sizeof(EpItem)); } else k++; }
  d.type=D_NONE; d.obj=0; d.off=0; d.nonblock=0; d.ref=0;
  while(K->maxdesc>0 && K->d[K->maxdesc-1].ref==0) K->maxdesc--;
  while(K->maxsock>0 && !K->s[K->maxsock-1].used) K->maxsock--;
  while(K->maxep>0 && !K->e[K->maxep-1].used) K->maxep--;
}
static void drop_locks(int pi,int f){ File&F=K->f[f]; int n=0; for(int i=0;i<F.nlk;i++) if(F.lk[i].pid!=pi) F.lk[n++]=F.lk[i]; for(int i=n;i<F.nlk;i++) memset(&F.lk[i],0,sizeof(LockRec)); F.nlk=n; }
static int do_close(int pi,int fd){ Proc&p=K->p[pi]; if(fd<0||fd>=p.maxfd||p.fds[fd]<0) return -1; int di=p.fds[fd]; p.fds[fd]=-1;
  while(p.maxfd>0 && p.fds[p.maxfd-1]<0) p.maxfd--;
  if(K->d[di].type==D_FILE) drop_locks(pi,K->d[di].obj);   // POSIX: any close drops the process's locks
  desc_unref(di,pi); return 0; }

// ---------------------------------------------------------------- locks
static bool lk_conflict(File&F,int pi,int type,int64_t a,int64_t b){ for(int i=0;i<F.nlk;i++){ LockRec&l=F.lk[i]; if(l.pid!=pi && (l.type==2||type==2) && l.start<b && a<l.end) return true; } return false; }
static void lk_set(File&F,int pi,int type,int64_t a,int64_t b){
  LockRec out[NLOCK*2+2]; int n=0;
  for(int i=0;i<F.nlk;i++){ LockRec l=F.lk[i]; if(l.pid!=pi||l.end<=a||l.start>=b){ out[n++]=l; continue; }
    if(l.start<a){ LockRec x=l; x.end=a; out[n++]=x; } if(l.end>b){ LockRec x=l; x.start=b; out[n++]=x; } }
  if(type) out[n++]={(int16_t)pi,(int16_t)type,a,b};
  if(n>NLOCK){ fprintf(stderr,"sim: lock table\n"); _exit(3);}
  memset(F.lk,0,sizeof F.lk); memcpy(F.lk,out,n*sizeof(LockRec)); F.nlk=n;
}
static bool holds(int pi,int f,bool w,uint64_t){ File&F=K->f[f]; bool mine=false; int nw=0; for(int i=0;i<F.nlk;i++){ if(F.lk[i].pid==pi && (F.lk[i].type==2||!w)) mine=true; if(F.lk[i].type==2) { bool dup=false; for(int j=0;j<i;j++) if(F.lk[j].pid==F.lk[i].pid&&F.lk[j].type==2) dup=true; if(!dup) nw++; } }
  return mine && nw<=1; }

// ---------------------------------------------------------------- points
static void count_sys(){ Proc&p=cur(); g_nsys++; if(++p.nsys>(uint32_t)SC.max_sys) sim_violation("livelock: more than %d system calls in one operation",SC.max_sys); }
static void point(int kind,int obj){ count_sys(); if(!SC.micro) return; Proc&p=cur(); p.pk=kind; p.pobj=obj; actor_yield(PS_RUN); }
int sim_choose(int n,int kind){ if(n<=1) return 0; Proc&p=cur(); p.nalt=n; p.alt=0; p.pk=1000+kind; actor_yield(PS_CHOICE); int a=p.alt; p.nalt=0; p.alt=0; return a; }
// injected failure: returns 0 (none) or errno
static int fault(int kind,int e1,int e2=0,int e3=0){ g_fault_kinds_seen|=1<<(kind&31); if(!SC.faults||K->fault_budget<=0) return 0; int a=sim_choose(e3?4:e2?3:2,kind); if(!a) return 0; K->fault_budget--; K->faults_used++; cur().faults_in_op++; return a==1?e1:a==2?e2:e3; }

__attribute__((weak)) int tool_stream_events(int obj){ return 0; }
static bool desc_readable(int di){ Desc&d=K->d[di]; if(d.type==D_SOCK) return K->s[d.obj].qn>0; if(d.type==D_EVT) return K->evt[d.obj]; if(d.type==D_STREAM) return tool_stream_events(d.obj)&EPOLLIN; return false; }
static uint32_t desc_events(int di){ Desc&d=K->d[di]; uint32_t r=0; if(d.type==D_STREAM) return tool_stream_events(d.obj); if(desc_readable(di)) r|=EPOLLIN; if(d.type==D_SOCK) r|=EPOLLOUT; return r; }
static bool ep_ready(int e){ Epoll&E=K->e[e]; for(int k=0;k<E.n;k++) if(desc_events(E.it[k].desc)&(E.it[k].events|EPOLLERR|EPOLLHUP)) return true; return false; }
bool sim_ready_fd(int pi,int fd){ Proc&p=K->p[pi]; if(fd<0||fd>=p.maxfd||p.fds[fd]<0) return false; return desc_readable(p.fds[fd]); }
int sim_waitfd_pending(int pi,int fd){ Proc&p=K->p[pi]; if(fd<0||fd>=p.maxfd||p.fds[fd]<0) return -1; Desc&d=K->d[p.fds[fd]]; return d.type==D_SOCK? K->s[d.obj].qn:-1; }
bool sim_enabled(int pi){ Proc&p=K->p[pi];
  switch(p.st){ case PS_RUN: case PS_CHOICE: return true;
    case PS_LOCK: return !lk_conflict(K->f[p.pobj],pi,p.ptype,p.pstart,p.pend);
    case PS_EPW: if(p.ptmo>=0) return true; if(p.pobj>=0) return ep_ready(p.pobj); return desc_readable(p.pobj2);
    default: return false; } }
static void block_on_desc(int di){ Proc&p=cur(); p.pobj=-1; p.pobj2=di; p.ptmo=-1; actor_yield(PS_EPW); }
void sim_interrupt(int pi){ Proc&p=K->p[pi]; p.evt=1; p.nintr++; if(p.st==PS_EPW) p.nintrw++; p.st=PS_RUN; }
static bool intr(){ Proc&p=cur(); if(!p.evt) return false; p.evt=0; return true; }

// ---------------------------------------------------------------- memory accesses to shared mappings
static bool g_track=true; void sim_track_access(bool on){ g_track=on; }
struct RaceMap { std::vector<uint8_t> b; } ; // bit0 written under lock after init, bit1 read unlocked, bit2 racy
static uint8_t *g_rm[NFILES]; static bool g_racy_new;
bool sim_racy_changed(){ bool r=g_racy_new; g_racy_new=false; return r; }
void sim_racy_reset(){ for(int f=0;f<NFILES;f++) if(g_rm[f]) memset(g_rm[f],0,FAREA); g_racy_count=0; g_racy_new=false; }
static bool range_racy(int f,uint64_t o,size_t n){ if(!g_rm[f]) return false; for(size_t i=0;i<n;i++) if(g_rm[f][o+i]&4) return true; return false; }
static void mark(int f,uint64_t o,size_t n,bool w,bool locked){
  if(!g_rm[f]) { g_rm[f]=(uint8_t*)calloc(1,FAREA); }
  uint8_t*m=g_rm[f]+o;
  for(size_t i=0;i<n;i++){ uint8_t x=m[i];
    if(w) x|=1; if(!locked) x|=2; 
    if(!(x&4) && ((x&3)==3)) { x|=4; g_racy_count++; g_racy_new=true; }
    m[i]=x; }
}
static void view_access(uintptr_t a,size_t n,bool w){
  uintptr_t o=a-FVIEW; int v=o/FTOT; uint64_t r=o%FTOT; int f=r/FAREA; uint64_t off=r%FAREA;
  Proc&p=cur(); int per=NVIEW/K->nproc; int li=v-g_cur*per;
  if(li<0||li>=per||li>=p.maxmap||!p.map[li].used||p.map[li].file!=f) sim_violation("access to an unmapped ring address (%s of %zu bytes)",w?"write":"read",n);
  if(off+n>p.map[li].len || off+n>K->f[f].size) sim_violation("%s of %zu bytes at offset %llu beyond the ring file (size %llu)",w?"write":"read",n,(unsigned long long)off,(unsigned long long)K->f[f].size);
  if(g_in_init[g_cur] && !g_init_writes_count) return;
  bool locked=holds(g_cur,f,w,off);
  mark(f,off,n,w,locked);
  if(SC.fine && SC.micro && range_racy(f,off,n)){ p.pk=900; p.pobj=f; actor_yield(PS_RUN); }
}
// every access to the heap must lie within one live block of the running process
struct HB { uint32_t magic; uint32_t cls; uint64_t size; };
#define HMAGIC 0x5ea10c8du
#define HFREE  0xdeadf4eeu
static struct { uintptr_t lo,hi; } g_blk[16]; static void blk_forget(){ memset(g_blk,0,sizeof g_blk); }
static void heap_access(uintptr_t a,size_t n,bool w){
  const char*what=w?"write":"read"; int pi=(a-HEAP_BASE)/HEAP_STRIDE; if(pi!=g_cur){ sim_violation("%s of %zu bytes in another process's memory",what,n); return; }
  Proc&p=K->p[pi]; if(a>=p.brk){ sim_violation("%s of %zu bytes of memory that was never allocated",what,n); return; }
  auto&b=g_blk[(a>>8)&15]; if(a<b.lo||a>=b.hi){ uintptr_t q=HEAP_BASE+pi*HEAP_STRIDE; for(;;){ uintptr_t e=q+((size_t)32<<(((HB*)q)->cls&0xff)); if(a<e||e>=p.brk){ b.lo=q; b.hi=e; break; } q=e; } }
  HB*h=(HB*)b.lo; uintptr_t d=(uintptr_t)(h+1); if(h->magic==HFREE){ sim_violation("%s of %zu bytes of memory that has been freed",what,n); return; }
  if(h->magic!=HMAGIC||a<d||a+n>d+h->size) sim_violation("%s of %zu bytes at offset %lld of a block of %zu bytes",what,n,(long long)(a-d),(size_t)h->size);
}
static inline void acc(void*p,size_t n,bool w){
  if(++g_acc>SC.max_access && g_in_co) sim_violation("livelock: more than %llu memory accesses without a system call",(unsigned long long)SC.max_access);
  uintptr_t a=(uintptr_t)p; if(a-FVIEW<NVIEW*FTOT && n && g_track && g_cur>=0) view_access(a,n,w);
  else if(a-HEAP_BASE<NPROC*HEAP_STRIDE && n && g_track && g_cur>=0) heap_access(a,n,w);
}
extern "C" {
void __tsan_init(){} void __tsan_func_entry(void*){} void __tsan_func_exit(){}
#define RW(N) void __tsan_read##N(void*p){acc(p,N,false);} void __tsan_write##N(void*p){acc(p,N,true);} void __tsan_unaligned_read##N(void*p){acc(p,N,false);} void __tsan_unaligned_write##N(void*p){acc(p,N,true);} \
 void __tsan_volatile_read##N(void*p){acc(p,N,false);} void __tsan_volatile_write##N(void*p){acc(p,N,true);} void __tsan_unaligned_volatile_read##N(void*p){acc(p,N,false);} void __tsan_unaligned_volatile_write##N(void*p){acc(p,N,true);} \
 void __tsan_read_write##N(void*p){acc(p,N,true);}
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void*p,unsigned long n){acc(p,n,false);} void __tsan_write_range(void*p,unsigned long n){acc(p,n,true);}
void __tsan_vptr_update(void**,void*){} void __tsan_vptr_read(void**){}
// atomics, should the code ever use them
#define AT(N,T) T __tsan_atomic##N##_load(const volatile T*a,int){acc((void*)a,sizeof(T),false);return *a;} void __tsan_atomic##N##_store(volatile T*a,T v,int){acc((void*)a,sizeof(T),true);*a=v;} \
 T __tsan_atomic##N##_exchange(volatile T*a,T v,int){acc((void*)a,sizeof(T),true);T o=*a;*a=v;return o;} T __tsan_atomic##N##_fetch_add(volatile T*a,T v,int){acc((void*)a,sizeof(T),true);T o=*a;*a=o+v;return o;} \
 T __tsan_atomic##N##_fetch_sub(volatile T*a,T v,int){acc((void*)a,sizeof(T),true);T o=*a;*a=o-v;return o;} T __tsan_atomic##N##_fetch_or(volatile T*a,T v,int){acc((void*)a,sizeof(T),true);T o=*a;*a=o|v;return o;} \
 T __tsan_atomic##N##_fetch_and(volatile T*a,T v,int){acc((void*)a,sizeof(T),true);T o=*a;*a=o&v;return o;} \
 int __tsan_atomic##N##_compare_exchange_strong(volatile T*a,T*c,T v,int,int){acc((void*)a,sizeof(T),true);if(*a==*c){*a=v;return 1;}*c=*a;return 0;} int __tsan_atomic##N##_compare_exchange_weak(volatile T*a,T*c,T v,int m,int m2){return __tsan_atomic##N##_compare_exchange_strong(a,c,v,m,m2);}
AT(8,uint8_t) AT(16,uint16_t) AT(32,uint32_t) AT(64,uint64_t)
void __tsan_atomic_thread_fence(int){} void __tsan_atomic_signal_fence(int){}
}
static bool in_view(const void*p){ return (uintptr_t)p-FVIEW<NVIEW*FTOT; }
// bulk accesses: piecewise when racy so that other processes can run in the middle
static void bulk(void*d,const void*s,size_t n){
  if(SC.fine && SC.micro && n>1){ size_t h=n/2; acc((void*)s,h,false); acc(d,h,true); memcpy(d,s,h); acc((char*)s+h,n-h,false); acc((char*)d+h,n-h,true); memcpy((char*)d+h,(char*)s+h,n-h); return; }
  acc((void*)s,n,false); acc(d,n,true); memmove(d,s,n); }
extern "C" {
void* sim_memcpy(void*d,const void*s,size_t n){ if(n){ uintptr_t a=(uintptr_t)d,b=(uintptr_t)s; if(a!=b && (a<b? a+n>b : b+n>a)) sim_violation("memcpy with overlapping buffers"); if(in_view(d)||in_view(s)) bulk(d,s,n); else { acc((void*)s,n,false); acc(d,n,true); memcpy(d,s,n);} } return d; }
void* sim___memcpy_chk(void*d,const void*s,size_t n,size_t){ return sim_memcpy(d,s,n); }
void* sim_memmove(void*d,const void*s,size_t n){ if(n){ acc((void*)s,n,false); acc(d,n,true); memmove(d,s,n);} return d; }
void* sim___memmove_chk(void*d,const void*s,size_t n,size_t){ return sim_memmove(d,s,n); }
void* sim_mempcpy(void*d,const void*s,size_t n){ sim_memcpy(d,s,n); return (char*)d+n; }
void* sim_memset(void*d,int c,size_t n){ if(n){ acc(d,n,true); memset(d,c,n);} return d; }
void* sim___memset_chk(void*d,int c,size_t n,size_t){ return sim_memset(d,c,n); }
int sim_memcmp(const void*a,const void*b,size_t n){ if(n){ acc((void*)a,n,false); acc((void*)b,n,false);} return memcmp(a,b,n); }
size_t sim_strlen(const char*s){ size_t n=strlen(s); acc((void*)s,n+1,false); return n; }
int sim_strncmp(const char*a,const char*b,size_t n){ if(n){ size_t l=strnlen(a,n),m=strnlen(b,n); acc((void*)a,l<n?l+1:n,false); acc((void*)b,m<n?m+1:n,false); } return strncmp(a,b,n); }

int* sim___errno_location(){ return &cur().err; }
void sim___assert_fail(const char*e,const char*f,unsigned l,const char*fn){ const char*b=strrchr(f,'/'); sim_violation("assertion failed: %s (%s:%u %s)",e,b?b+1:f,l,fn); for(;;); }
void sim_abort(){ sim_violation("abort() called"); for(;;); }
void sim___stack_chk_fail(){ sim_violation("stack smashing detected"); for(;;); }
void sim___chk_fail(){ sim_violation("buffer overflow detected"); for(;;); }
void sim_exit(int c){ sim_violation("exit(%d) called by the library",c); for(;;); }
void sim__exit(int c){ sim_exit(c); }

// ---------------------------------------------------------------- heap
static int clsof(size_t n){ int c=0; size_t s=32; while(s<n){ s<<=1; c++; } return c; }
static void* halloc(int pi,size_t n,bool harness){
  Proc&p=K->p[pi]; size_t need=sizeof(HB)+n+16; int c=clsof(need); if(c>=24){ return nullptr; }
  HB*h; if(p.freel[c]){ h=(HB*)p.freel[c]; p.freel[c]=*(uintptr_t*)(h+1); }
  else { h=(HB*)p.brk; size_t sz=(size_t)32<<c; if(p.brk+sz>HEAP_BASE+(pi+1)*HEAP_STRIDE) return nullptr; p.brk+=sz; }
  h->magic=HMAGIC; h->cls=c|(harness?0x100:0); h->size=n; memset(h+1,0xA5,n); memset((char*)(h+1)+n,0x7E,16);
  if(!harness){ p.nalloc++; p.bytes_alloc+=n; } return h+1; }
static void hfree(int pi,void*q,bool harness){
  if(!q) return; Proc&p=K->p[pi]; uintptr_t a=(uintptr_t)q, lo=HEAP_BASE+pi*HEAP_STRIDE;
  if(a<lo||a>=p.brk){ sim_violation("free of a pointer not from this process's heap"); return; }
  HB*h=(HB*)q-1; if(h->magic==HFREE){ sim_violation("double free"); return; } if(h->magic!=HMAGIC){ sim_violation("free of a bad or corrupted pointer"); return; }
  for(int i=0;i<16;i++) if(((uint8_t*)q)[h->size+i]!=0x7E){ sim_violation("heap buffer overflow (found at free, block of %zu bytes)",(size_t)h->size); return; }
  if(!(h->cls&0x100)){ p.nalloc--; p.bytes_alloc-=h->size; }
  int c=h->cls&0xff; h->magic=HFREE; h->cls=c; memset(q,0xDD,h->size); h->size=0; *(uintptr_t*)q=p.freel[c]; p.freel[c]=(uintptr_t)h; }
}
bool sim_heap_check(int pi){ Proc&p=K->p[pi]; uintptr_t a=HEAP_BASE+pi*HEAP_STRIDE; while(a<p.brk){ HB*h=(HB*)a; if(h->magic==HMAGIC){ for(int i=0;i<16;i++) if(((uint8_t*)(h+1))[h->size+i]!=0x7E) return false; } else if(h->magic!=HFREE) return false; a+=(size_t)32<<(h->cls&0xff);} return true; }
void *sim_amalloc(size_t n){ return halloc(g_cur,n,true); }
void sim_afree(void*q){ hfree(g_cur,q,true); }
extern "C" {
void* sim_malloc(size_t n){ if(fault(0,ENOMEM)){ cur().err=ENOMEM; return nullptr;} void*r=halloc(g_cur,n,false); if(!r) cur().err=ENOMEM; return r; }
void* sim_calloc(size_t a,size_t b){ size_t n; if(__builtin_mul_overflow(a,b,&n)){cur().err=ENOMEM;return nullptr;} void*r=sim_malloc(n); if(r) memset(r,0,n); return r; }
void sim_free(void*q){ hfree(g_cur,q,false); }
void* sim_realloc(void*q,size_t n){ if(!q) return sim_malloc(n); if(fault(0,ENOMEM)){cur().err=ENOMEM;return nullptr;} HB*h=(HB*)q-1; if(h->magic!=HMAGIC) sim_violation("realloc of a bad pointer"); void*r=halloc(g_cur,n,false); if(!r){cur().err=ENOMEM;return nullptr;} memcpy(r,q,h->size<n?h->size:n); hfree(g_cur,q,false); return r; }
char* sim_strdup(const char*s){ size_t n=strlen(s)+1; acc((void*)s,n,false); char*r=(char*)sim_malloc(n); if(r) memcpy(r,s,n); return r; }
int sim_posix_memalign(void**r,size_t,size_t n){ *r=sim_malloc(n); return *r?0:ENOMEM; }

// logging goes nowhere
int sim_fprintf(FILE*,const char*,...){ return 1; } int sim___fprintf_chk(FILE*,int,const char*,...){ return 1; }
int sim_printf(const char*,...){ return 1; } int sim___printf_chk(int,const char*,...){ return 1; }
int sim_vfprintf(FILE*,const char*,va_list){return 1;} int sim___vfprintf_chk(FILE*,int,const char*,va_list){return 1;}
int sim_fputs(const char*,FILE*){return 1;} int sim_puts(const char*){return 1;} int sim_fputc(int c,FILE*){return c;} int sim_putchar(int c){return c;} size_t sim_fwrite(const void*,size_t a,size_t b,FILE*){return b;} void sim_perror(const char*){} int sim_fflush(FILE*){return 0;}

int sim_getpid(){ return cur().pid; }
int sim_kill(int pid,int sig){ count_sys(); if(sig!=0){ sim_violation("library sent signal %d",sig); } for(int i=0;i<K->nproc;i++) if(K->p[i].pid==pid && K->p[i].st!=PS_OFF && (K->p[i].st!=PS_DEAD || SC.zombies)) return 0; ERR(ESRCH); }

// ---------------------------------------------------------------- files
static int find_file(const char*n){ for(int i=0;i<NFILES;i++) if(K->f[i].used&&K->f[i].linked&&!strcmp(K->f[i].name,n)) return i; return -1; }
long sim_unmodelled_call(){ fprintf(stderr,"the code calls a function that the simulated kernel does not have\n"); _exit(3); }
int sim_access(const char*n,int){ point(1,0); if(find_file(n)>=0) return 0; ERR(ENOENT); }
int sim_rename(const char*a,const char*b){ point(2,0); int e=fault(1,EBUSY); if(e) ERR(e); int f=find_file(a); if(f<0) ERR(ENOENT); int g=find_file(b); if(g==f) return 0; if(strlen(b)>=sizeof K->f[f].name) ERR(ENAMETOOLONG); if(g>=0){ K->f[g].linked=0; if(K->f[g].nref==0) K->f[g].used=0; } memset(K->f[f].name,0,sizeof K->f[f].name); strcpy(K->f[f].name,b); return 0; }
int sim_remove(const char*n); int sim_unlinkat(int d,const char*n,int); int sim_lstat(const char*,struct stat*); int sim_truncate(const char*,off_t);
off_t sim_lseek(int fd,off_t o,int wh){ Desc*d=fdesc(g_cur,fd); if(!d) ERR(EBADF); count_sys(); if(d->type!=D_FILE) ERR(ESPIPE); off_t n=wh==SEEK_SET?o:wh==SEEK_CUR?d->off+o:(off_t)K->f[d->obj].size+o; if(n<0) ERR(EINVAL); d->off=n; return n; }
int sim_chmod(const char*n,unsigned){ count_sys(); if(find_file(n)<0) ERR(ENOENT); return 0; }
int sim_fchmod(int fd,unsigned){ count_sys(); if(!fdesc(g_cur,fd)) ERR(EBADF); return 0; }
unsigned sim_umask(unsigned){ return 022; }
unsigned sim_getuid(){ return 0; } unsigned sim_geteuid(){ return 0; } int sim_getppid(){ return 1; }
int sim_unlink(const char*n){ point(2,0); int e=fault(1,EBUSY); if(e) ERR(e); int f=find_file(n); if(f<0) ERR(ENOENT); K->f[f].linked=0; if(K->f[f].nref==0) K->f[f].used=0; return 0; }
static int new_file(const char*n){ for(int i=0;i<NFILES;i++) if(!K->f[i].used){ memset(&K->f[i],0,sizeof(File)); K->f[i].used=1; K->f[i].linked=1; snprintf(K->f[i].name,sizeof K->f[i].name,"%s",n); K->f[i].ino=++K->ino_ctr; return i; } fprintf(stderr,"sim: out of files\n"); _exit(3); }
__attribute__((weak)) int tool_open(const char*n,int fl){ return -2; }
int sim_open(const char*n,int fl,...){
  if(!strcmp(n,"/proc/net/unix")){ count_sys(); int e=fault(2,EMFILE); if(e) ERR(e); int d=new_desc(D_TEXT,0); return fd_install(d); }
  int t=tool_open(n,fl); if(t!=-2) return t;
  point(3,0); int e=fault(3,EMFILE,EACCES); if(e) ERR(e);
  if(!strncmp(n,"nodir/",6)) ERR(ENOENT);
  int f=find_file(n);
  if(f>=0 && (fl&O_CREAT) && (fl&O_EXCL)) ERR(EEXIST);
  if(f<0 && !(fl&O_CREAT)) ERR(ENOENT);
  if(f<0) f=new_file(n);
  if(fl&O_TRUNC){ K->f[f].size=0; }
  int d=new_desc(D_FILE,f); int fd=fd_install(d); if(fd<0) return -1; K->f[f].nref++; return fd; }
int sim_close(int fd){ Desc*d=fdesc(g_cur,fd); count_sys(); if(!d) ERR(EBADF); if(d->type==D_FILE||(d->type==D_SOCK&&K->s[d->obj].named)) { if(SC.micro){ cur().pk=4; cur().pobj=0; actor_yield(PS_RUN);} } if(do_close(g_cur,fd)<0) ERR(EBADF); return 0; }
int sim_fstat(int fd,struct stat*st){ Desc*d=fdesc(g_cur,fd); if(!d) ERR(EBADF); point(5,0); int e=fault(4,EIO); if(e) ERR(e); memset(st,0,sizeof *st); if(d->type==D_FILE){ st->st_size=K->f[d->obj].size; st->st_ino=K->f[d->obj].ino; st->st_mode=S_IFREG|0644; st->st_nlink=1; st->st_blksize=4096; st->st_blocks=(st->st_size+511)/512; } return 0; }
int sim_stat(const char*n,struct stat*st){ point(5,0); int f=find_file(n); if(f<0) ERR(ENOENT); memset(st,0,sizeof *st); st->st_size=K->f[f].size; st->st_ino=K->f[f].ino; st->st_mode=S_IFREG|0644; return 0; }
}
uint64_t g_last_trunc;   // what was asked for last
extern "C" {
int sim_ftruncate(int fd,off_t n){ g_last_trunc=n; Desc*d=fdesc(g_cur,fd); if(!d||d->type!=D_FILE) ERR(EBADF); point(6,0); int e=fault(5,ENOSPC,EIO); if(e) ERR(e); if(n<0) ERR(EINVAL); if((size_t)n>FAREA) ERR((size_t)n>(1ull<<40)?EFBIG:ENOSPC); File&F=K->f[d->obj]; if((size_t)n>F.size) memset(sim_file_data(d->obj)+F.size,0,n-F.size); else memset(sim_file_data(d->obj)+n,0,F.size-n); F.size=n; return 0; }
int sim_remove(const char*n){ return sim_unlink(n); }
int sim_unlinkat(int d,const char*n,int){ if(d!=AT_FDCWD) ERR(EINVAL); return sim_unlink(n); }
int sim_lstat(const char*n,struct stat*st){ return sim_stat(n,st); }
int sim_truncate(const char*n,off_t len){ int fd=sim_open(n,O_RDWR); if(fd<0) return -1; int r=sim_ftruncate(fd,len), e=cur().err; do_close(g_cur,fd); if(r<0) ERR(e); return r; }
int sim_posix_fallocate(int fd,off_t o,off_t n){ Desc*d=fdesc(g_cur,fd); if(!d||d->type!=D_FILE) return EBADF; if((size_t)(o+n)>K->f[d->obj].size) return sim_ftruncate(fd,o+n)<0?cur().err:0; return 0; }
static MapRec* map_at(const void*a,uint64_t&off){ uintptr_t o=(uintptr_t)a-FVIEW; Proc&p=cur(); if(o>=NVIEW*FTOT) return nullptr; int per=NVIEW/K->nproc, li=(int)(o/FTOT)-g_cur*per; if(li<0||li>=p.maxmap||!p.map[li].used||(int)((o%FTOT)/FAREA)!=p.map[li].file) return nullptr; off=(o%FTOT)%FAREA; return &p.map[li]; }
static uint64_t locked_bytes(Proc&p){ uint64_t t=0; for(int i=0;i<p.maxmap;i++) if(p.map[i].used) t+=p.map[i].dbg; return t; }
int sim_mlock(const void*a,size_t n){ count_sys(); int e=fault(6,ENOMEM); if(e) ERR(e); uint64_t off; MapRec*m=map_at(a,off); if(!m){ uintptr_t h=(uintptr_t)a; if(h>=HEAP_BASE&&h<STACK_BASE+NPROC*2*STACK_SIZE) return 0; ERR(ENOMEM); } if(off+n>(m->len+4095)/4096*4096) ERR(ENOMEM); uint64_t want=(off+n+4095)/4096*4096; if(off/4096*4096>(uint64_t)m->dbg) return 0;   // (a lock from the middle on is not a lock of the whole)
  if(want>(uint64_t)m->dbg){ if(SC.lock_limit&&locked_bytes(cur())-m->dbg+want>SC.lock_limit) ERR(ENOMEM); m->dbg=want; } return 0; }
int sim_mlock2(const void*a,size_t n,int){ return sim_mlock(a,n); }
int sim_munlock(const void*a,size_t n){ count_sys(); uint64_t off; MapRec*m=map_at(a,off); if(m&&n&&off/4096*4096<(uint64_t)m->dbg) m->dbg=off/4096*4096; return 0; }
int sim_mlockall(int fl){ count_sys(); int e=fault(6,ENOMEM); if(e) ERR(e); if(fl&1){ Proc&p=cur(); for(int i=0;i<p.maxmap;i++) if(p.map[i].used) p.map[i].dbg=(p.map[i].len+4095)/4096*4096; } return 0; }
int sim_munlockall(){ count_sys(); Proc&p=cur(); for(int i=0;i<p.maxmap;i++) p.map[i].dbg=0; return 0; }
void* sim_mmap(void*,size_t len,int prot,int fl,int fd,off_t off){
  count_sys(); int e=fault(7,ENOMEM); if(e){cur().err=e;return MAP_FAILED;}
  if(fl&MAP_ANONYMOUS){ void*r=halloc(g_cur,len,false); if(!r){cur().err=ENOMEM;return MAP_FAILED;} return r; }
  Desc*d=fdesc(g_cur,fd); if(!d||d->type!=D_FILE){cur().err=EBADF;return MAP_FAILED;} if(len==0){cur().err=EINVAL;return MAP_FAILED;} if(len>FAREA||len>(1ull<<46)){cur().err=ENOMEM;return MAP_FAILED;}
  Proc&p=cur(); int per=NVIEW/K->nproc; for(int i=0;i<per;i++) if(i>=p.maxmap||!p.map[i].used){ p.map[i]={1,0,d->obj,(int16_t)(g_cur*per+i),len,0}; if(i>=p.maxmap)p.maxmap=i+1; K->f[d->obj].nref++; view_need(g_cur*per+i); void*r=(void*)(FVIEW+(uintptr_t)p.map[i].view*FTOT+(size_t)d->obj*FAREA); if(fl&MAP_LOCKED){ uint64_t w=(len+4095)/4096*4096; if(!SC.lock_limit||locked_bytes(p)+w<=SC.lock_limit) p.map[i].dbg=w; } return r; }
  cur().err=ENOMEM; return MAP_FAILED; }
int sim_munmap(void*a,size_t len){ count_sys(); uintptr_t o=(uintptr_t)a-FVIEW; Proc&p=cur(); if(o>=NVIEW*FTOT){ sim_violation("munmap of an address that is not a mapping"); ERR(EINVAL);} int v=o/FTOT; int per=NVIEW/K->nproc; int li=v-g_cur*per; if(li<0||li>=p.maxmap||!p.map[li].used||(o%FTOT)%FAREA) { sim_violation("munmap of an address that is not mapped"); ERR(EINVAL);} 
  uint64_t want=(p.map[li].len+4095)/4096, got=(len+4095)/4096; if(want!=got){ sim_violation("munmap with a length that does not cover the mapping"); ERR(EINVAL);} file_unref(p.map[li].file); memset(&p.map[li],0,sizeof(MapRec)); while(p.maxmap>0&&!p.map[p.maxmap-1].used) p.maxmap--; return 0; }
int sim_msync(void*a,size_t len,int fl){ uintptr_t o=(uintptr_t)a-FVIEW; if(o>=NVIEW*FTOT) ERR(ENOMEM); point(7,0); int e=fault(8,EIO); if(e) ERR(e);
  uint64_t r=o%FTOT; int f=r/FAREA; uint64_t off=r%FAREA; File&F=K->f[f]; if(off%4096) ERR(EINVAL);
  if(fl&MS_ASYNC) return 0;
  if(!g_durable[f]) g_durable[f]=(uint8_t*)calloc(1,FAREA);
  if(!F.durable_valid){ memset(g_durable[f],0,F.size); F.durable_valid=1; }
  uint64_t end=off+((len+4095)/4096)*4096; if(end>F.size) end=F.size; if(off<end) memcpy(g_durable[f]+off,sim_file_data(f)+off,end-off); F.durable_size=F.size; return 0; }

// ---------------------------------------------------------------- locks
int sim_fcntl(int fd,int cmd,...){
  va_list ap; va_start(ap,cmd); void*arg=va_arg(ap,void*); va_end(ap);
  Desc*d=fdesc(g_cur,fd); if(!d) ERR(EBADF);
  if(cmd==F_GETFL){ count_sys(); return O_RDWR|(d->nonblock?O_NONBLOCK:0);} if(cmd==F_SETFL){ count_sys(); d->nonblock=((long)arg&O_NONBLOCK)?1:0; return 0;} if(cmd==F_GETFD||cmd==F_SETFD){ count_sys(); return 0; }
  if(cmd==F_SETLK||cmd==F_SETLKW||cmd==F_GETLK||cmd==F_OFD_SETLK||cmd==F_OFD_SETLKW){
    if(d->type!=D_FILE) ERR(EBADF);
    struct flock*l=(struct flock*)arg; int f=d->obj; int64_t a=l->l_start; if(l->l_whence==SEEK_END) a+=K->f[f].size; int64_t b=l->l_len? a+l->l_len : INT64_MAX; if(l->l_len<0){ b=a; a=a+l->l_len; } if(a<0||b<a) ERR(EINVAL);
    if(l->l_type==F_UNLCK){ count_sys(); lk_set(K->f[f],g_cur,0,a,b); if(SC.micro){ cur().pk=11; cur().pobj=f; actor_yield(PS_RUN);} return 0; }
    int t=l->l_type==F_WRLCK?2:1;
    if(cmd==F_GETLK){ count_sys(); if(!lk_conflict(K->f[f],g_cur,t,a,b)) l->l_type=F_UNLCK; return 0; }
    int e=fault(9,EINTR,ENOLCK); if(e){ ERR(e); }
    count_sys();
    if(cmd==F_SETLKW||cmd==F_OFD_SETLKW){
      Proc&p=cur(); p.pk=10; p.pobj=f; p.ptype=t; p.pstart=a; p.pend=b;
      if(SC.micro||lk_conflict(K->f[f],g_cur,t,a,b)) actor_yield(PS_LOCK);
      if(intr()){ p.pstart=p.pend=0; p.ptype=0; ERR(EINTR); }
      p.pstart=p.pend=0; p.ptype=0; lk_set(K->f[f],g_cur,t,a,b); return 0; }
    point(12,f); if(lk_conflict(K->f[f],g_cur,t,a,b)) ERR(EAGAIN); lk_set(K->f[f],g_cur,t,a,b); return 0; }
  g_unmodelled++; ERR(EINVAL); }
int sim_lockf(int fd,int cmd,off_t len){ struct flock l={}; l.l_whence=SEEK_SET; l.l_type=cmd==F_ULOCK?F_UNLCK:F_WRLCK; return sim_fcntl(fd,cmd==F_LOCK?F_SETLKW:F_SETLK,&l); }
int sim_flock(int fd,int op){ struct flock l={}; l.l_whence=SEEK_SET; l.l_type=(op&LOCK_UN)?F_UNLCK:(op&LOCK_EX)?F_WRLCK:F_RDLCK; return sim_fcntl(fd,(op&LOCK_NB)||(op&LOCK_UN)?F_SETLK:F_SETLKW,&l); }

// ---------------------------------------------------------------- datagram sockets
__attribute__((weak)) int tool_socket(){ return -1; }
int sim_socket(int dom,int type,int){ count_sys(); int e=fault(10,EMFILE,ENOBUFS); if(e) ERR(e); if(dom==AF_INET) return tool_socket(); if(dom!=AF_UNIX||(type&0xf)!=SOCK_DGRAM) ERR(EAFNOSUPPORT); int s=new_sock(); int d=new_desc(D_SOCK,s); K->d[d].nonblock=(type&SOCK_NONBLOCK)?1:0; int fd=fd_install(d); if(fd<0){ K->s[s].used=0; } return fd; }
static Sock* fsock(int fd){ Desc*d=fdesc(g_cur,fd); if(!d||d->type!=D_SOCK) return nullptr; return &K->s[d->obj]; }
int sim_bind(int fd,const struct sockaddr*sa,socklen_t len){ Desc*d=fdesc(g_cur,fd); if(d&&d->type==D_STREAM){ return 0; } Sock*s=fsock(fd); if(!s) ERR(EBADF); count_sys(); int e=fault(11,ENOMEM); if(e) ERR(e); if(s->named) ERR(EINVAL);
  const struct sockaddr_un*su=(const struct sockaddr_un*)sa;
  if(len<=sizeof(sa_family_t)){ if(SC.reuse_names) for(unsigned c=0x10;;c++){ char t[8]; snprintf(t,sizeof t,"%05x",c); bool taken=false; for(int i=0;i<K->maxsock;i++) if(K->s[i].used&&K->s[i].named&&!strcmp(K->s[i].name,t)) taken=true; if(!taken){ memcpy(s->name,t,8); break; } } else snprintf(s->name,sizeof s->name,"%05x",K->name_ctr++ & 0xfffff); }
  else { int n=len-sizeof(sa_family_t)-1; if(su->sun_path[0]!=0||n>7) ERR(EINVAL); memset(s->name,0,8); memcpy(s->name,su->sun_path+1,n); }
  s->named=1; return 0; }
int sim_getsockname(int fd,struct sockaddr*sa,socklen_t*len){ Sock*s=fsock(fd); if(!s) ERR(EBADF); count_sys(); int e=fault(12,ENOBUFS); if(e) ERR(e); struct sockaddr_un su; memset(&su,0,sizeof su); su.sun_family=AF_UNIX; socklen_t n=sizeof(sa_family_t); if(s->named){ memcpy(su.sun_path+1,s->name,strlen(s->name)); n=sizeof(sa_family_t)+1+strlen(s->name); } memcpy(sa,&su,*len<n?*len:n); *len=n; return 0; }
int sim_setsockopt(int fd,int,int,const void*,socklen_t){ count_sys(); int e=fault(13,ENOMEM); if(e) ERR(e); return 0; }
__attribute__((weak)) int tool_connect(int obj){ return 0; }
int sim_connect(int fd,const struct sockaddr*sa,socklen_t len){ Desc*dd=fdesc(g_cur,fd); if(dd&&dd->type==D_STREAM) return tool_connect(dd->obj); Sock*s=fsock(fd); if(!s) ERR(EBADF); point(20,0); int e=fault(14,ENOMEM,EAGAIN,EACCES); if(e) ERR(e);
  const struct sockaddr_un*su=(const struct sockaddr_un*)sa; int n=len-sizeof(sa_family_t)-1; if(n<0||su->sun_path[0]!=0||n>7) ERR(ECONNREFUSED); char nm[8]={0}; memcpy(nm,su->sun_path+1,n);
  for(int i=0;i<K->maxsock;i++) if(K->s[i].used&&K->s[i].named&&!strcmp(K->s[i].name,nm)){ s->peer=i; s->peergen=K->s[i].gen; return 0; }
  ERR(ECONNREFUSED); }
static ssize_t dsend(int fd,size_t len,int flags){ Sock*s=fsock(fd); if(!s) ERR(EBADF); point(21,0); int e=fault(15,ENOBUFS,ENOMEM); if(e) ERR(e);
  s=fsock(fd); if(s->peer<0) ERR(ENOTCONN);
  for(;;){ Sock*t=&K->s[s->peer]; if(!t->used||t->gen!=s->peergen){ s->peer=-1; ERR(ECONNREFUSED); }
    if(t->qn>=SC.qlen){ if((flags&MSG_DONTWAIT)||fdesc(g_cur,fd)->nonblock) ERR(EAGAIN); sim_violation("blocking send on a full wakeup queue while in a library call"); }
    if(t->qn<SQCAP) t->ql[t->qn]=len>255?255:len; t->qn++; return len; } }
static size_t iovtot(const struct msghdr*m){ size_t n=0; for(size_t i=0;i<m->msg_iovlen;i++) n+=m->msg_iov[i].iov_len; return n; }
ssize_t sim_sendmsg(int fd,const struct msghdr*m,int fl){ return dsend(fd,iovtot(m),fl); }
ssize_t sim_send(int fd,const void*,size_t n,int fl){ return dsend(fd,n,fl); }
ssize_t sim_sendto(int fd,const void*,size_t n,int fl,const struct sockaddr*sa,socklen_t){ if(sa){ g_unmodelled++; ERR(EINVAL);} return dsend(fd,n,fl); }
static ssize_t drecv1(Sock*s,struct iovec*iov,size_t niov){ int l=s->ql[0]; if(s->qn<=SQCAP){ memmove(s->ql,s->ql+1,s->qn-1); s->ql[s->qn-1]=0; } else memmove(s->ql,s->ql+1,SQCAP-1); s->qn--; size_t left=l,got=0; for(size_t i=0;i<niov&&left;i++){ size_t k=iov[i].iov_len<left?iov[i].iov_len:left; acc(iov[i].iov_base,k,true); memset(iov[i].iov_base,0,k); left-=k; got+=k; } return got; }
static ssize_t drecv(int fd,struct iovec*iov,size_t niov,int fl){ Desc*d=fdesc(g_cur,fd); if(!d||d->type!=D_SOCK) ERR(EBADF); point(22,d->obj); int e=fault(16,ENOMEM); if(e) ERR(e);
  while(K->s[d->obj].qn==0){ if((fl&MSG_DONTWAIT)||d->nonblock) ERR(EAGAIN); count_sys(); block_on_desc(cur().fds[fd]); if(intr()) ERR(EINTR); }
  if(fl&MSG_PEEK) return K->s[d->obj].ql[0];
  return drecv1(&K->s[d->obj],iov,niov); }
ssize_t sim_recvmsg(int fd,struct msghdr*m,int fl){ ssize_t r=drecv(fd,m->msg_iov,m->msg_iovlen,fl); if(r>=0) m->msg_controllen=0; return r; }
__attribute__((weak)) ssize_t tool_read(int obj,void*b,size_t n){ return 0; }
__attribute__((weak)) ssize_t tool_write(int obj,const void*b,size_t n){ return n; }
ssize_t sim_recv(int fd,void*b,size_t n,int fl){ Desc*d=fdesc(g_cur,fd); if(d&&d->type==D_STREAM) return tool_read(d->obj,b,n); struct iovec v={b,n}; return drecv(fd,&v,1,fl); }
ssize_t sim_recvfrom(int fd,void*b,size_t n,int fl,struct sockaddr*,socklen_t*){ return sim_recv(fd,b,n,fl); }
int sim_recvmmsg(int fd,struct mmsghdr*mm,unsigned vl,int fl,struct timespec*){ Desc*d=fdesc(g_cur,fd); if(!d||d->type!=D_SOCK) ERR(EBADF); point(23,d->obj); int e=fault(17,ENOMEM); if(e) ERR(e); if(K->s[d->obj].qn==0) { if(fl&MSG_DONTWAIT) ERR(EAGAIN); count_sys(); block_on_desc(cur().fds[fd]); if(intr()) ERR(EINTR); }
  unsigned n=0; while(n<vl&&K->s[d->obj].qn){ mm[n].msg_len=drecv1(&K->s[d->obj],mm[n].msg_hdr.msg_iov,mm[n].msg_hdr.msg_iovlen); n++; } return n; }
int sim_ioctl(int fd,unsigned long req,...){ va_list ap; va_start(ap,req); int*out=(int*)va_arg(ap,void*); va_end(ap); Desc*d=fdesc(g_cur,fd); if(!d) ERR(EBADF); point(24,d->obj); int e=fault(18,EIO); if(e) ERR(e); if(req==FIONREAD&&d->type==D_SOCK){ *out=K->s[d->obj].qn?K->s[d->obj].ql[0]:0; return 0;} if(req==FIONBIO){ d->nonblock=*out?1:0; return 0;} g_unmodelled++; ERR(EINVAL); }
ssize_t sim_read(int fd,void*b,size_t n); 
ssize_t sim_write(int fd,const void*b,size_t n){ acc((void*)b,n,false); if(fd==1||fd==2) return tool_write(-fd,b,n); Desc*d=fdesc(g_cur,fd); if(!d) ERR(EBADF); if(d->type==D_STREAM) return tool_write(d->obj,b,n); if(d->type==D_SOCK) return dsend(fd,n,0); if(d->type==D_FILE){ File&F=K->f[d->obj]; if(d->off+n>FAREA) ERR(ENOSPC); memcpy(sim_file_data(d->obj)+d->off,b,n); d->off+=n; if((size_t)d->off>F.size) F.size=d->off; return n; } g_unmodelled++; ERR(EINVAL); }
int sim_shutdown(int,int){ return 0; }
int sim_dup(int fd){ Desc*d=fdesc(g_cur,fd); if(!d) ERR(EBADF); return fd_install(cur().fds[fd]); }

// ---------------------------------------------------------------- epoll / poll
int sim_epoll_create1(int){ count_sys(); int e=fault(19,EMFILE); if(e) ERR(e); for(int i=0;i<NEPOLL;i++) if(i>=K->maxep||!K->e[i].used){ memset(&K->e[i],0,sizeof(Epoll)); K->e[i].used=1; if(i>=K->maxep)K->maxep=i+1; int d=new_desc(D_EPOLL,i); return fd_install(d);} fprintf(stderr,"sim: epolls\n"); _exit(3); }
int sim_epoll_create(int){ return sim_epoll_create1(0); }
int sim_epoll_ctl(int ep,int op,int fd,struct epoll_event*ev){ Desc*E=fdesc(g_cur,ep),*d=fdesc(g_cur,fd); if(!E||!d) ERR(EBADF); if(E->type!=D_EPOLL) ERR(EINVAL); count_sys(); int e=fault(20,ENOMEM,ENOSPC); if(e) ERR(e); if(d->type==D_FILE) ERR(EPERM); Epoll&x=K->e[E->obj]; int di=cur().fds[fd]; int k; for(k=0;k<x.n;k++) if(x.it[k].fd==fd&&x.it[k].desc==di) break;
  if(op==EPOLL_CTL_ADD){ if(k<x.n) ERR(EEXIST); if(x.n==NEPITEM) ERR(ENOSPC); x.it[x.n++]={(int16_t)fd,(int16_t)di,ev->events,ev->data.u64}; return 0; }
  if(k==x.n) ERR(ENOENT);
  if(op==EPOLL_CTL_MOD){ x.it[k].events=ev->events; x.it[k].data=ev->data.u64; return 0; }
  for(int m=k;m+1<x.n;m++) x.it[m]=x.it[m+1]; x.n--; memset(&x.it[x.n],0,sizeof(EpItem)); return 0; }
int sim_epoll_wait(int ep,struct epoll_event*ev,int max,int tmo){ Desc*E=fdesc(g_cur,ep); if(!E||E->type!=D_EPOLL) ERR(EBADF); int e=fault(21,EINTR); if(e) ERR(e); int ei=E->obj; count_sys();
  Proc&p=cur(); p.pk=30; p.pobj=ei; p.pobj2=-1; p.ptmo=tmo;
  if(SC.micro||(tmo<0&&!ep_ready(ei))) actor_yield(PS_EPW);
  if(intr()){ p.ptmo=0; p.pobj=0; ERR(EINTR); }
  p.ptmo=0; p.pobj=0;
  int idx[NEPITEM],n=0; Epoll&x=K->e[ei]; for(int k=0;k<x.n;k++) if(desc_events(x.it[k].desc)&(x.it[k].events|EPOLLERR|EPOLLHUP)) idx[n++]=k;
  if(n==0) return 0; if(max<1) ERR(EINVAL);
  int rot=0; if(n>max&&SC.epchoice) rot=sim_choose(n,50); int m=n<max?n:max;
  for(int k=0;k<m;k++){ EpItem&t=x.it[idx[(k+rot)%n]]; ev[k].events=desc_events(t.desc)&(t.events|EPOLLERR|EPOLLHUP); ev[k].data.u64=t.data; }
  return m; }
int sim_epoll_pwait(int ep,struct epoll_event*ev,int max,int tmo,const sigset_t*){ return sim_epoll_wait(ep,ev,max,tmo); }
int sim_poll(struct pollfd*f,nfds_t n,int tmo){ count_sys(); int e=fault(21,EINTR); if(e) ERR(e);
  for(;;){ int r=0; for(nfds_t i=0;i<n;i++){ f[i].revents=0; Desc*d=fdesc(g_cur,f[i].fd); if(!d){ if(f[i].fd>=0){f[i].revents=POLLNVAL;r++;} continue;} if(desc_readable(cur().fds[f[i].fd])&&(f[i].events&POLLIN)){ f[i].revents=POLLIN; r++; } } if(r||tmo>=0) return r; if(n<1) ERR(EINVAL); if(n==1){ block_on_desc(cur().fds[f[0].fd]); if(intr()) ERR(EINTR); } else { /* several: approximate with a scheduling point */ Proc&p=cur(); p.pk=31; actor_yield(PS_RUN); count_sys(); } } }

// ---------------------------------------------------------------- /proc
static std::string unix_pad(int from,int to){ std::string r; char b[160]; for(int i=from;i<to;i++){ const char*nm=i%3==0?"":i%3==1?" /run/systemd/private":" @/tmp/.X11-unix/X0"; snprintf(b,sizeof b,"%016llx: %08X 00000000 %08X %04X %02X %5d%s\n",0ull,2+i%3,i%3==1?0x10000:0,1+i%2,i%3==1?1:3,500000+i*7,nm); r+=b; } return r; }
static std::string unix_text(){ std::string r="Num       RefCount Protocol Flags    Type St Inode Path\n"; char b[128];
  if(SC.unixpad) r+=unix_pad(0,SC.unixpad*3/4);
  auto line=[&](Sock&s){ snprintf(b,sizeof b,"%016llx: %08x 00000000 00000000 0002 01 %d%s%s\n",0ull,2u,s.ino,s.named?" @":"",s.named?s.name:""); r+=b; };
  if(SC.unnamed_first){ snprintf(b,sizeof b,"%016llx: %08x 00000000 00000000 0001 03 %6d\n",0ull,3u,77); r+=b; for(int i=0;i<K->maxsock;i++) if(K->s[i].used&&!K->s[i].named) line(K->s[i]); for(int i=0;i<K->maxsock;i++) if(K->s[i].used&&K->s[i].named) line(K->s[i]); }
  else { for(int i=0;i<K->maxsock;i++) if(K->s[i].used&&K->s[i].named) line(K->s[i]); }
  if(SC.unixpad) r+=unix_pad(SC.unixpad*3/4,SC.unixpad);
  return r; }
// a read of a seq_file returns whole records, at most a page of them, or the rest of a record cut short before
static size_t seq_chunk(const std::string&t,size_t off,size_t n){ if(off>=t.size()) return 0; size_t end=off; for(;;){ size_t nl=t.find('\n',end); size_t e=nl==std::string::npos?t.size():nl+1; if(e-off>4096&&end>off) break; end=e; if(end>=t.size()) break; } return end-off<n?end-off:n; }
ssize_t sim_read(int fd,void*b,size_t n){ Desc*d=fdesc(g_cur,fd); if(!d) ERR(EBADF);
  if(d->type==D_STREAM) return tool_read(d->obj,b,n);
  if(d->type==D_TEXT){ count_sys(); int e=fault(22,EIO); if(e) ERR(e); std::string t=unix_text(); size_t k=seq_chunk(t,d->off,n); acc(b,k,true); memcpy(b,t.data()+d->off,k); d->off+=k; return k; }
  if(d->type==D_SOCK){ struct iovec v={b,n}; return drecv(fd,&v,1,0); }
  if(d->type==D_EVT){ count_sys(); if(!K->evt[d->obj]) ERR(EAGAIN); return n; }
  if(d->type==D_FILE){ File&F=K->f[d->obj]; size_t k=F.size>(size_t)d->off?F.size-d->off:0; if(k>n)k=n; acc(b,k,true); memcpy(b,sim_file_data(d->obj)+d->off,k); d->off+=k; return k; }
  g_unmodelled++; ERR(EINVAL); }
ssize_t sim___read_chk(int fd,void*b,size_t n,size_t){ return sim_read(fd,b,n); }
ssize_t sim_pread(int fd,void*b,size_t n,off_t o){ Desc*d=fdesc(g_cur,fd); if(!d||d->type!=D_FILE) ERR(EBADF); File&F=K->f[d->obj]; size_t k=F.size>(size_t)o?F.size-o:0; if(k>n)k=n; acc(b,k,true); memcpy(b,sim_file_data(d->obj)+o,k); return k; }
struct SimDir { int pid_idx; int pos; int fd; struct dirent de; };
void* sim_opendir(const char*path){ count_sys(); int e=fault(23,EMFILE,EACCES); if(e){cur().err=e;return nullptr;} unsigned pid; if(sscanf(path,"/proc/%u/fd",&pid)!=1){cur().err=ENOENT;return nullptr;}
  int q=-1; for(int i=0;i<K->nproc;i++) if(K->p[i].pid==(int)pid&&K->p[i].st!=PS_OFF&&(K->p[i].st!=PS_DEAD||SC.zombies)) q=i; if(q<0){cur().err=ENOENT;return nullptr;} if((SC.proc_eacces&&q!=g_cur)||(SC.zombies==2&&K->p[q].st==PS_DEAD)){cur().err=EACCES;return nullptr;}
  SimDir*d=(SimDir*)halloc(g_cur,sizeof(SimDir),false); memset(d,0,sizeof *d); d->pid_idx=q; d->pos=-2; d->fd=fd_install(new_desc(D_TEXT,1)); return d; }
struct dirent* sim_readdir(void*dp){ count_sys(); SimDir*d=(SimDir*)dp; Proc&p=K->p[d->pid_idx]; memset(&d->de,0,sizeof d->de); if(d->pos<0){ strcpy(d->de.d_name,d->pos==-2?".":".."); d->de.d_type=DT_DIR; d->pos++; return &d->de; }
  while(d->pos<p.maxfd&&p.fds[d->pos]<0) d->pos++; if(d->pos>=p.maxfd) return nullptr; snprintf(d->de.d_name,sizeof d->de.d_name,"%d",d->pos++); d->de.d_type=DT_LNK; return &d->de; }
int sim_closedir(void*dp){ count_sys(); SimDir*d=(SimDir*)dp; do_close(g_cur,d->fd); hfree(g_cur,d,false); return 0; }
ssize_t sim_readlink(const char*path,char*b,size_t n){ count_sys(); int e=fault(24,ENOENT); if(e) ERR(e); unsigned pid; int fd; if(sscanf(path,"/proc/%u/fd/%d",&pid,&fd)!=2) ERR(ENOENT); int q=-1; for(int i=0;i<K->nproc;i++) if(K->p[i].pid==(int)pid&&K->p[i].st!=PS_OFF&&K->p[i].st!=PS_DEAD) q=i; if(q<0) ERR(ENOENT); Desc*d=fdesc(q,fd); if(!d) ERR(ENOENT); char t[100]; if(d->type==D_SOCK) snprintf(t,sizeof t,"socket:[%d]",K->s[d->obj].ino); else if(d->type==D_FILE) snprintf(t,sizeof t,"/dev/shm/%s",K->f[d->obj].name); else if(d->type==D_EPOLL) snprintf(t,sizeof t,"anon_inode:[eventpoll]"); else snprintf(t,sizeof t,"/proc/x"); size_t k=strlen(t); if(k>n)k=n; memcpy(b,t,k); return k; }
ssize_t sim___readlink_chk(const char*p,char*b,size_t n,size_t){ return sim_readlink(p,b,n); }
} // extern C

// ---------------------------------------------------------------- death and power failure
void sim_kill(int pi){ blk_forget(); Proc&p=K->p[pi]; for(int fd=p.maxfd-1;fd>=0;fd--) if(fd<p.maxfd&&p.fds[fd]>=0) do_close(pi,fd);
  for(int i=0;i<p.maxmap;i++) if(p.map[i].used){ file_unref(p.map[i].file); memset(&p.map[i],0,sizeof(MapRec)); } p.maxmap=0; p.st=PS_DEAD; p.pk=p.pobj=p.pobj2=0; p.nsys=0; p.err=0; p.faults_in_op=0; p.ptype=p.ptmo=0; p.pstart=p.pend=0; p.nalt=p.alt=0; p.nalloc=p.bytes_alloc=0; p.brk=HEAP_BASE+pi*HEAP_STRIDE; memset(p.freel,0,sizeof p.freel);
  char*top=(char*)STACK_BASE+pi*(STACK_SIZE*2)+STACK_SIZE-64; void**sp=(void**)top; *--sp=nullptr; *--sp=(void*)co_entry; for(int k=0;k<6;k++) *--sp=nullptr; p.sp=sp; memcpy(sd_copy[pi],sd_init,sd_n+sb_n); if(sd_live==pi) sd_live=-1; g_in_init[pi]=false; }
void sim_respawn(int pi){ Proc&p=K->p[pi]; char*top=(char*)STACK_BASE+pi*(STACK_SIZE*2)+STACK_SIZE-64; memset((char*)STACK_BASE+pi*(STACK_SIZE*2)+STACK_SIZE-32768,0,32768); void**sp=(void**)top; *--sp=nullptr; *--sp=(void*)co_entry; for(int k=0;k<6;k++) *--sp=nullptr; p.sp=sp; p.st=PS_IDLE; }
void sim_powerfail(){ for(int i=0;i<K->nproc;i++) if(K->p[i].st!=PS_OFF&&K->p[i].st!=PS_DEAD) sim_kill(i);
  for(int f=0;f<NFILES;f++) if(K->f[f].used){ File&F=K->f[f]; if(F.durable_valid){ F.size=F.durable_size; memcpy(sim_file_data(f),g_durable[f],F.size);} else memset(sim_file_data(f),0,F.size); } }

int sim_file_find(const char*n){ return find_file(n); }
void sim_lock_census(int pi,int*locked,int*unlocked,int*mixed){ Proc&p=K->p[pi]; *locked=*unlocked=*mixed=0; for(int f=0;f<NFILES;f++){ int a=0,b=0; bool part=false; for(int i=0;i<p.maxmap;i++){ MapRec&m=p.map[i]; if(!m.used||m.file!=f) continue; uint64_t all=((K->f[f].size<m.len?m.len:K->f[f].size)+4095)/4096*4096; if(m.dbg&&(uint64_t)m.dbg>=all) a++; else { b++; if(m.dbg) part=true; } } if(part||(a&&b)) (*mixed)++; else if(a) (*locked)++; else if(b) (*unlocked)++; } }
uint64_t sim_lock_size(const char*n){ int f=find_file(n); return f<0?0:(K->f[f].size+4095)/4096*4096; }
int sim_file_create(const char*n,const void*data,size_t len){ int f=find_file(n); if(f>=0){ K->f[f].linked=0; if(!K->f[f].nref) K->f[f].used=0; } f=new_file(n); K->f[f].size=len; memset(sim_file_data(f),0,len); if(data) memcpy(sim_file_data(f),data,len); return f; }
void sim_file_unlink(int f){ K->f[f].linked=0; if(!K->f[f].nref) K->f[f].used=0; }
void sim_set_evt(int i,int r){ K->evt[i]=r; }
int sim_evt_fd(int p,int evt){ int d=new_desc(D_EVT,evt); return fd_install_p(p,d); }
int sim_stream_fd(int p,int obj){ int d=new_desc(D_STREAM,obj); return fd_install_p(p,d); }
int sim_errno_set(int e){ cur().err=e; return -1; }
int sim_fdcount(int pi){ int n=0; for(int i=0;i<K->p[pi].maxfd;i++) if(K->p[pi].fds[i]>=0) n++; return n; }
int sim_mapcount(int pi){ int n=0; for(int i=0;i<K->p[pi].maxmap;i++) n+=K->p[pi].map[i].used; return n; }
int64_t sim_alloccount(int pi){ return K->p[pi].nalloc; }
int sim_lockcount(int pi){ int n=0; for(int f=0;f<NFILES;f++) if(K->f[f].used) for(int i=0;i<K->f[f].nlk;i++) n+=K->f[f].lk[i].pid==pi; return n; }

// ---------------------------------------------------------------- snapshots
// The state is the list of byte ranges below; header scalars come first so that a
// restore knows the sizes of the rest.
struct Hdr { int32_t nproc,maxdesc,maxsock,maxep; uint8_t evt[8]; uint32_t name_ctr,ino_ctr,sgen; int32_t fb,fu; };
static void hdr_get(Hdr&h){ memset(&h,0,sizeof h); h.nproc=K->nproc;h.maxdesc=K->maxdesc;h.maxsock=K->maxsock;h.maxep=K->maxep;memcpy(h.evt,K->evt,8);h.name_ctr=K->name_ctr;h.ino_ctr=K->ino_ctr;h.sgen=K->sgen;h.fb=K->fault_budget;h.fu=K->faults_used; }
static void hdr_put(const Hdr&h){ K->nproc=h.nproc;K->maxdesc=h.maxdesc;K->maxsock=h.maxsock;K->maxep=h.maxep;memcpy(K->evt,h.evt,8);K->name_ctr=h.name_ctr;K->ino_ctr=h.ino_ctr;K->sgen=h.sgen;K->fault_budget=h.fb;K->faults_used=h.fu; }
struct PHdr { uint8_t raw[offsetof(Proc,fds)]; int32_t maxfd,maxmap; uintptr_t brk; uintptr_t freel[24]; int64_t nalloc,bytes; };
static void phdr_get(PHdr&h,Proc&p){ memset(&h,0,sizeof h); memcpy(h.raw,&p,sizeof h.raw); h.maxfd=p.maxfd;h.maxmap=p.maxmap;h.brk=p.brk;memcpy(h.freel,p.freel,sizeof p.freel);h.nalloc=p.nalloc;h.bytes=p.bytes_alloc; }
static void phdr_put(const PHdr&h,Proc&p){ memcpy((void*)&p,h.raw,sizeof h.raw); p.maxfd=h.maxfd;p.maxmap=h.maxmap;p.brk=h.brk;memcpy(p.freel,h.freel,sizeof p.freel);p.nalloc=h.nalloc;p.bytes_alloc=h.bytes; }
template<class F> static void ranges(F fn){
  fn(K->d,sizeof(Desc)*K->maxdesc); fn(K->s,sizeof(Sock)*K->maxsock); fn(K->e,sizeof(Epoll)*K->maxep); fn(K->f,sizeof K->f);
  for(int f=0;f<NFILES;f++) if(K->f[f].used){ fn(sim_file_data(f),K->f[f].size); if(K->f[f].durable_valid) fn(g_durable[f],K->f[f].durable_size); }
  for(int i=0;i<K->nproc;i++){ Proc&p=K->p[i]; fn(p.fds,sizeof(int16_t)*p.maxfd); fn(p.map,sizeof(MapRec)*p.maxmap);
    uintptr_t hb=HEAP_BASE+i*HEAP_STRIDE; fn((void*)hb,p.brk-hb);
    if(p.st!=PS_OFF&&p.st!=PS_DEAD){ uintptr_t top=STACK_BASE+i*(STACK_SIZE*2)+STACK_SIZE; fn(p.sp,top-(uintptr_t)p.sp); }
    if(sd_n+sb_n) fn(sd_copy[i],sd_n+sb_n); }
}
void sim_save(Snap&s){
  size_t n=sizeof(Hdr)+K->nproc*sizeof(PHdr); ranges([&](const void*,size_t k){n+=k;}); s.resize(n); uint8_t*o=s.data();
  Hdr h; hdr_get(h); memcpy(o,&h,sizeof h); o+=sizeof h; for(int i=0;i<K->nproc;i++){ PHdr ph; phdr_get(ph,K->p[i]); memcpy(o,&ph,sizeof ph); o+=sizeof ph; }
  ranges([&](const void*p,size_t k){ memcpy(o,p,k); o+=k; }); }
void sim_restore(const Snap&s){ blk_forget();
  const uint8_t*o=s.data(); Hdr h; memcpy(&h,o,sizeof h); o+=sizeof h; hdr_put(h); for(int i=0;i<K->nproc;i++){ PHdr ph; memcpy(&ph,o,sizeof ph); o+=sizeof ph; phdr_put(ph,K->p[i]); }
  // file table must be in place before the file ranges are sized: copy the fixed prefix by hand
  auto take=[&](void*p,size_t k){ memcpy(p,o,k); o+=k; };
  take(K->d,sizeof(Desc)*K->maxdesc); take(K->s,sizeof(Sock)*K->maxsock); take(K->e,sizeof(Epoll)*K->maxep); take(K->f,sizeof K->f);
  for(int f=0;f<NFILES;f++) if(K->f[f].used){ take(sim_file_data(f),K->f[f].size); if(K->f[f].durable_valid){ if(!g_durable[f]) g_durable[f]=(uint8_t*)calloc(1,FAREA); take(g_durable[f],K->f[f].durable_size);} }
  for(int i=0;i<K->nproc;i++){ Proc&p=K->p[i]; take(p.fds,sizeof(int16_t)*p.maxfd); take(p.map,sizeof(MapRec)*p.maxmap); uintptr_t hb=HEAP_BASE+i*HEAP_STRIDE; take((void*)hb,p.brk-hb);
    if(p.st!=PS_OFF&&p.st!=PS_DEAD){ uintptr_t top=STACK_BASE+i*(STACK_SIZE*2)+STACK_SIZE; take(p.sp,top-(uintptr_t)p.sp); }
    if(sd_n+sb_n) take(sd_copy[i],sd_n+sb_n); }
  sd_live=-1; g_viol=false; }
H128 sim_hash(){ H128 h={1,2}; Hdr x; hdr_get(x); x.fu=0; h=hash_bytes(&x,sizeof x,h); for(int i=0;i<K->nproc;i++){ PHdr ph; phdr_get(ph,K->p[i]); ((Proc*)ph.raw)->nsys=0; ((Proc*)ph.raw)->opno=0; h=hash_bytes(&ph,sizeof ph,h);} ranges([&](const void*p,size_t k){ h=hash_bytes(p,k,h); }); return h; }

void sim_access(const void*p,size_t n,bool w){ acc((void*)p,n,w); }   // the kernel copies from or to the program's memory
