// Executes operations through the public API inside a simulated process.
// With -DREAL the same driver runs in real processes on the real kernel.
#include "explore.h"
#include "shr.h"
#include "bw.h"
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <cstdio>
#include <cstdlib>
#include <new>
#ifdef REAL
#include <poll.h>
static bool ready_fd(int,int fd){ struct pollfd f={fd,POLLIN,0}; return poll(&f,1,0)>0; }
void *sim_amalloc(size_t n){ return malloc(n+1); }
void sim_afree(void*p){ free(p); }
#define sim_free free
bool g_in_init[NPROC]; static Kernel rk; Kernel*K=&rk;
#else
World *W;
extern "C" { void sim_free(void*); }
#define ready_fd sim_ready_fd
extern "C" { int sim_fcntl(int,int,...); int sim_open(const char*,int,...); int sim_ftruncate(int,off_t); void*sim_mmap(void*,size_t,int,int,int,off_t); }
#endif
bool g_learn, g_race;
static uint8_t *ubuf(size_t n){ uint8_t*b=(uint8_t*)sim_amalloc(n); memset(b,0x5A,n); return b; }
static void badcall(Res&r,const char*why){ if(!r.bad){ r.bad=1; snprintf(r.why,sizeof r.why,"%s",why); } }
static void digest_read(Res&r,uint8_t*buf,size_t cap,ssize_t rc){
  if(rc>0){ if((size_t)rc>cap) badcall(r,"returned more than the buffer holds"); }
  size_t from=rc>0?rc:0; for(size_t i=from;i<cap;i++) if(buf[i]!=0x5A){ badcall(r,"wrote to the buffer beyond the returned data"); break; } }
// every kind of damaged, missing or foreign ring file, and every invalid combination of flags
static void try_bad(int p,const Op&o,Res&r,const char*path,uint32_t flags,const char*what,long arg){ shr*s=shr_open(path,flags); r.n++; if(s){ char b[60]; snprintf(b,sizeof b,"opened a ring: %s %ld",what,arg); badcall(r,b); shr_close(s); } (void)p; (void)o; }
static void openbad(int p,const Op&o,Res&r){
  r.rc=0; const char*path=ring_path(o.r);
  if(o.a==3){ try_bad(p,o,r,ring_path(3),o.flags,"no such file",0); return; }
  if(o.a==4){ uint32_t bits[]={SHR_KEEPEXIST,SHR_DROP,SHR_APPDATA_1,SHR_FARM,SHR_MAXMSGS_2,SHR_SYNC,SHR_MLOCK,SHR_RDONLY,SHR_WRONLY,SHR_NONBLOCK,SHR_BUFFERED}; for(uint32_t m=0;m<2048;m++){ uint32_t f=0; for(int i=0;i<11;i++) if(m>>i&1) f|=bits[i]; bool valid=(((f&SHR_RDONLY)!=0)!=((f&SHR_WRONLY)!=0))&&!(m&127); if(!valid) try_bad(p,o,r,path,f,"flags",f); if(r.bad) return; } return; }
#ifdef REAL
  int fd=open(path,O_RDWR); if(fd<0) return; struct stat st; fstat(fd,&st); size_t full=st.st_size; std::vector<uint8_t> keep(full),now(full); if(pread(fd,keep.data(),full,0)!=(ssize_t)full) return;
  auto put=[&](const uint8_t*d,size_t n){ if(ftruncate(fd,n)<0||pwrite(fd,d,n,0)!=(ssize_t)n) _exit(9); };
  auto same=[&](const uint8_t*d,size_t n){ fstat(fd,&st); now.resize(n+1); return (size_t)st.st_size==n&&pread(fd,now.data(),n,0)==(ssize_t)n&&!memcmp(now.data(),d,n); };
#else
  int f=sim_file_find(path); if(f<0) return; uint8_t*D=sim_file_data(f); size_t full=K->f[f].size; static std::vector<uint8_t> keep; keep.assign(D,D+full);
  auto put=[&](const uint8_t*d,size_t n){ if(n>full) n=full; memset(D,0,full); memcpy(D,d,n); K->f[f].size=n; };
  auto same=[&](const uint8_t*d,size_t n){ return K->f[f].size==n&&!memcmp(D,d,n); };
#endif
  static std::vector<uint8_t> d;
  if(o.a==0) for(size_t n=0;n<full&&!r.bad;n++){ put(keep.data(),n); try_bad(p,o,r,path,o.flags,"truncated to",n); if(!r.bad&&!same(keep.data(),n)) badcall(r,"altered the truncated file"); }
  if(o.a==1) for(int i=0;i<8&&!r.bad;i++) for(int x: {1,2,0x20,0x80,0xff}){ d=keep; d[i]^=x; put(d.data(),full); try_bad(p,o,r,path,o.flags,"magic byte",i); if(!r.bad&&!same(d.data(),full)) badcall(r,"altered a foreign file"); if(r.bad) break; }
  if(o.a==2) for(int k=0;k<4&&!r.bad;k++) for(size_t n: {(size_t)1,(size_t)7,(size_t)8,(size_t)9,(size_t)100,full-1,full}){ d.assign(n,0); for(size_t i=0;i<n;i++) d[i]= k==0?0: k==1?0xff: k==2?"hello, this is text\n"[i%20]: (uint8_t)(i*37>>3); put(d.data(),n); try_bad(p,o,r,path,o.flags,"foreign contents, length",n); if(!r.bad&&!same(d.data(),n)) badcall(r,"altered a foreign file"); if(r.bad) break; }
#ifdef REAL
  put(keep.data(),full); close(fd);
#else
  K->f[f].size=full; memcpy(D,keep.data(),full);
#endif
}
static void blk(int fd,int type){ struct flock f; memset(&f,0,sizeof f); f.l_type=type; f.l_whence=SEEK_SET;
#ifdef REAL
  fcntl(fd,type==F_UNLCK?F_SETLK:F_SETLKW,&f);
#else
  sim_fcntl(fd,type==F_UNLCK?F_SETLK:F_SETLKW,&f);
#endif
}
static void bwop(int p,const Op&o,Res&r){
  Act&a=W->A[p];
  if(!a.bwmem){
#ifdef REAL
    int fd=open(ring_path(3),O_RDWR|O_CREAT,0600); if(fd<0||ftruncate(fd,8192)<0) _exit(9); a.bwlock=fd; a.bwmem=mmap(0,8192,PROT_READ|PROT_WRITE,MAP_SHARED,fd,0);
#else
    int kf=K->fault_budget; K->fault_budget=0; int fd=sim_open(ring_path(3),O_RDWR|O_CREAT,0600); if(K->f[K->d[K->p[p].fds[fd]].obj].size==0) sim_ftruncate(fd,8192); a.bwlock=fd; a.bwmem=sim_mmap(0,8192,PROT_READ|PROT_WRITE,MAP_SHARED,fd,0); K->fault_budget=kf; a.fd0=sim_fdcount(p); a.map0=sim_mapcount(p);
#endif
  }
  bw_t*w=(bw_t*)a.bw[o.h&15]; bw_handle*h=(bw_handle*)a.bwmem; bool under=o.k==O_BWOPEN||o.k==O_BWCLOSE||o.k==O_BWWAKE||o.k==O_BWFORCE;
  if(under) blk(a.bwlock,F_WRLCK);
  switch(o.k){
    case O_BWOPEN: a.bwfd[o.h]=-1; w=o.a? bw_open(BW_WAIT,h,&a.bwfd[o.h]) : bw_open(BW_WAKE,h); a.bw[o.h]=w; if(w) a.nbw++; else a.bwfd[o.h]=-1; r.rc=w?1:0; break;
    case O_BWCLOSE: bw_close(w); a.bw[o.h]=nullptr; a.bwfd[o.h]=-1; a.nbw--; break;
    case O_BWWAKE: r.rc=bw_wake(w); break;
    case O_BWWAIT: r.rc=bw_wait_ul(w); break;
    case O_BWREADY: r.rc=bw_ready_ul(w); break;
    case O_BWFORCE: r.rc=bw_force(w,o.a); break;
    case O_BWPOLLFD: r.rc=bw_ctl(w,BW_POLLFD,a.evtfd[o.a]); break; default: break; }
  if(under) blk(a.bwlock,F_UNLCK);
#ifdef REAL
  if(a.bw[o.h]&&a.bwfd[o.h]>=0) r.st[2]=ready_fd(p,a.bwfd[o.h])?1:0;
#else
  if(!SC.micro&&a.bw[o.h]&&a.bwfd[o.h]>=0) r.st[2]=ready_fd(p,a.bwfd[o.h])?1:0;
#endif
}
void exec_op(int p,const Op&o,Res&r){
  Act&a=W->A[p]; memset(&r,0,sizeof r); uint32_t f0=K->faults_used;
  switch(o.k){
  case O_INIT: { RingCfg&g=g_cfgs[o.a]; char*ad=nullptr; char path[240]; snprintf(path,sizeof path,"%s",ring_path(o.r)); g_in_init[p]=true;
    if(g.flags&SHR_APPDATA){ size_t al=g.kind?64:g.applen; ad=(char*)ubuf(al); for(uint32_t j=0;j<al;j++) ad[j]=msg_byte(g.appid,j); }
    if((g.flags&SHR_APPDATA)&&(g.flags&SHR_MAXMSGS_2)) r.rc=shr_init(path,g.n,g.flags,ad,(size_t)g.applen,(size_t)g.mm);
    else if(g.flags&SHR_APPDATA) r.rc=shr_init(path,g.n,g.flags,ad,(size_t)g.applen);
    else if(g.flags&SHR_MAXMSGS_2) r.rc=shr_init(path,g.n,g.flags,(size_t)g.mm);
    else r.rc=shr_init(path,g.n,g.flags);
    g_in_init[p]=false; if(ad){ size_t al=g.kind?64:g.applen; for(uint32_t j=0;j<al;j++) if((uint8_t)ad[j]!=msg_byte(g.appid,j)) badcall(r,"modified the caller's application data"); sim_afree(ad); } if(strcmp(path,ring_path(o.r))) badcall(r,"modified the caller's path");
#ifdef REAL
    r.st[0]=access(ring_path(o.r),F_OK)==0; r.st[1]=1;
#else
    if(!SC.micro){ r.st[0]=sim_file_find(ring_path(o.r))>=0; r.st[1]=1; }
#endif
    break; }
  case O_OPENBAD: openbad(p,o,r); break;
  case O_OPEN: { shr*s=shr_open(ring_path(o.r),o.flags); a.h[o.h]=s; r.rc=s?1:0; if(s&&(o.flags&SHR_BUFFERED)&&(o.flags&SHR_WRONLY)){ struct shr_stat st; memset(&st,0,sizeof st); int kf=K->fault_budget; K->fault_budget=0; if(shr_stat(s,&st,nullptr)==0) r.sz=st.cn; K->fault_budget=kf; } if(s&&g_learn){ struct shr_stat st; memset(&st,0,sizeof st); int kf=K->fault_budget; K->fault_budget=0; if(shr_stat(s,&st,nullptr)==0) r.st[10]=st.mm; K->fault_budget=kf; } if(s) a.nopen++; break; }
  case O_CLOSE: shr_close(a.h[o.h]); a.h[o.h]=nullptr; a.nopen--; r.rc=0; break;
  case O_WRITE: { uint8_t*b=ubuf(o.a); for(uint32_t j=0;j<o.a;j++) b[j]=msg_byte(o.id,j); r.rc=shr_write(a.h[o.h],(char*)b,o.a); for(uint32_t j=0;j<o.a;j++) if(b[j]!=msg_byte(o.id,j)) badcall(r,"modified the caller's data"); sim_afree(b); break; }
  case O_WRITEV: { struct iovec*v=(struct iovec*)ubuf(sizeof(struct iovec)*(o.n+1)); uint8_t**b=(uint8_t**)ubuf(sizeof(uint8_t*)*(o.n+1)); for(int i=0;i<o.n;i++){ uint32_t l=oplen(o,i); b[i]=ubuf(l); for(uint32_t j=0;j<l;j++) b[i][j]=msg_byte(o.id+i,j); v[i].iov_base=b[i]; v[i].iov_len=l; }
    r.rc=shr_writev(a.h[o.h],v,o.n); for(int i=0;i<o.n;i++){ uint32_t l=oplen(o,i); if(v[i].iov_base!=b[i]||v[i].iov_len!=l) badcall(r,"modified the caller's iovecs"); else for(uint32_t j=0;j<l;j++) if(b[i][j]!=msg_byte(o.id+i,j)) badcall(r,"modified the caller's data"); }
    for(int i=o.n-1;i>=0;i--) sim_afree(b[i]); sim_afree(b); sim_afree(v); break; }
  case O_READ: { uint8_t*b=ubuf(o.a); ssize_t rc=shr_read(a.h[o.h],(char*)b,o.a); r.rc=rc; digest_read(r,b,o.a,rc); if(rc>0&&!r.bad){ r.n=1; r.bytes=rc; r.lens[0]=rc; r.digest=fold(0,rc,bytes_hash(b,rc)); } sim_afree(b); break; }
  case O_READV: { uint8_t*b=ubuf(o.a); struct iovec*v=(struct iovec*)ubuf(sizeof(struct iovec)*(o.b+1)); size_t&n=*(size_t*)ubuf(sizeof(size_t)); n=o.b; ssize_t rc=shr_readv(a.h[o.h],(char*)b,o.a,v,&n); r.rc=rc; digest_read(r,b,o.a,rc);
    if(n>o.b) badcall(r,"filled in more iovecs than the caller has");
    else { for(size_t k=0;k<sizeof(struct iovec);k++) if(((uint8_t*)&v[o.b])[k]!=0x5A) badcall(r,"wrote beyond the iovec array");
      if(rc>0){ uint8_t*q=b; for(size_t i=0;i<n&&!r.bad;i++){ if((uint8_t*)v[i].iov_base!=q||q+v[i].iov_len>b+o.a){ badcall(r,"iovec does not describe the messages in the buffer"); break; } r.digest=fold(r.digest,v[i].iov_len,bytes_hash(q,v[i].iov_len)); if(i<6) r.lens[i]=v[i].iov_len; q+=v[i].iov_len; } r.bytes=q-b; }
      r.n=n; }
    sim_afree(&n); sim_afree(v); sim_afree(b); break; }
  case O_FLUSH: r.rc=shr_flush(a.h[o.h],o.a); break;
  case O_STAT: { struct shr_stat&s=*(struct shr_stat*)ubuf(sizeof(struct shr_stat)); struct timeval&tv=*(struct timeval*)ubuf(sizeof(struct timeval)); tv={(time_t)o.a,(suseconds_t)(o.a*7)}; r.rc=shr_stat(a.h[o.h],&s,o.a?&tv:nullptr); if(tv.tv_sec!=(time_t)o.a||tv.tv_usec!=(suseconds_t)(o.a*7)) badcall(r,"modified the caller's time");
    if(r.rc==0){ uint64_t*t=r.st; t[0]=s.start.tv_sec; if((uint64_t)s.start.tv_usec!=t[0]*7) badcall(r,"stat start time garbled"); t[1]=s.bw;t[2]=s.br;t[3]=s.mw;t[4]=s.mr;t[5]=s.md;t[6]=s.bd;t[7]=s.bn;t[8]=s.bu;t[9]=s.mu;t[10]=s.mm;t[11]=s.cm;t[12]=s.cb;t[13]=s.flags&(SHR_DROP|SHR_FARM|SHR_SYNC|SHR_MLOCK|SHR_APPDATA); } sim_afree(&tv); sim_afree(&s); break; }
  case O_FSTAT: r.rc=shr_farm_stat(a.h[o.h],o.a); break;
  case O_APPGET: case O_APPGS: case O_APPSET: { size_t sz=o.a; void*get=nullptr; uint8_t*set=nullptr,*mine=nullptr; bool alloc=o.k==O_APPGET&&o.a==0;
    if(o.k!=O_APPSET&&!alloc) get=mine=ubuf(o.a); if(o.k!=O_APPGET){ set=ubuf(o.a); for(uint32_t j=0;j<o.a;j++) set[j]=msg_byte(o.id,j); }
    r.rc=shr_appdata(a.h[o.h],o.k==O_APPSET?nullptr:&get,set,&sz);
    if(r.rc==0){ if(o.k!=O_APPSET){ r.sz=sz; if(!get) badcall(r,"no buffer returned"); else { if(mine&&get!=mine) badcall(r,"replaced the caller's buffer pointer"); if(mine&&sz>o.a) badcall(r,"size larger than the caller's buffer"); if(!r.bad){ r.digest=bytes_hash((uint8_t*)get,sz); if(!r.digest) r.digest=1; if(mine) for(size_t j=sz;j<o.a;j++) if(mine[j]!=0x5A) badcall(r,"wrote beyond the application data"); } } } }
    else if(mine) { for(size_t j=0;j<o.a;j++) if(mine[j]!=0x5A){ badcall(r,"failed call wrote to the buffer"); break; } }
    if(set) for(uint32_t j=0;j<o.a;j++) if(set[j]!=msg_byte(o.id,j)){ badcall(r,"modified the caller's application data"); break; }
    if(alloc&&get&&r.rc==0) sim_free(get); if(mine) sim_afree(mine); if(set) sim_afree(set); break; }
  case O_SELFD: r.rc=shr_get_selectable_fd(a.h[o.h]); break;
  case O_POLLFD: r.rc=shr_ctl(a.h[o.h],SHR_POLLFD,a.evtfd[o.a]); break;
  case O_BWOPEN: case O_BWCLOSE: case O_BWWAKE: case O_BWWAIT: case O_BWREADY: case O_BWFORCE: case O_BWPOLLFD: bwop(p,o,r); break;
  default: break; }
  r.faults=K->faults_used-f0; r.ready=2;
#ifndef REAL
  r.faults+=o.k==O_CLOSE?K->p[p].nintrw:K->p[p].nintr;   // (waiting for the lock, a close carries on)
#endif
  if((o.k==O_READ||o.k==O_READV||o.k==O_OPEN||o.k==O_SELFD||o.k==O_STAT)&&o.h>=0&&a.h[o.h]){ int fd=shr_get_selectable_fd(a.h[o.h]); if(fd>=0) r.ready=ready_fd(p,fd); }
}
#ifndef REAL
static void actor_body(int p){ for(;;){ K->p[p].st=PS_RUN; Act&a=W->A[p]; exec_op(p,a.op,a.res); actor_yield(PS_OPDONE); } }
struct InstallActor { InstallActor(){ g_actor_main=actor_body; } } install_actor;
#endif

Op mk(OpK k,int h,uint32_t a,uint32_t b){ Op o; memset(&o,0,sizeof o); o.k=k; o.h=h; o.a=a; o.b=b; return o; }
Op oinit(int r,int cfg){ Op o=mk(O_INIT,-1,cfg); o.r=r; return o; }
Op oopen(int h,int r,uint32_t flags){ Op o=mk(O_OPEN,h); o.r=r; o.flags=flags; return o; }
Op owrite(int h,uint32_t len){ return mk(O_WRITE,h,len); }
Op owritev(int h,std::vector<uint32_t> l){ Op o=mk(O_WRITEV,h); o.n=l.size(); for(size_t i=0;i<l.size()&&i<6;i++) o.lens[i]=l[i]; return o; }
Op owritevn(int h,int n,uint32_t len){ Op o=mk(O_WRITEV,h); o.n=n; for(int i=0;i<6;i++) if(n>6||i<n) o.lens[i]=len; return o; }
