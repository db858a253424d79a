seed('c05-flag-lost','C05','a buffered write that finds both the cache and the ring full, followed by smaller writes',
 'the handle stops buffering after a flush that could not proceed, so later messages overtake the cached ones',
 [(S,'    nr = shr_writev(s, s->c.iov, s->c.vm);\n    s->flags |=  SHR_BUFFERED;\n    if (nr <= 0) return nr;\n','    nr = shr_writev(s, s->c.iov, s->c.vm);\n    if (nr <= 0) return nr;\n    s->flags |=  SHR_BUFFERED;\n')],
r'''
int main(){ char b[100]; MUST(shr_init("r",10,0)==0); shr*w=shr_open("r",SHR_WRONLY|SHR_NONBLOCK|SHR_BUFFERED); shr*x=shr_open("r",SHR_WRONLY|SHR_NONBLOCK); shr*r=shr_open("r",SHR_RDONLY|SHR_NONBLOCK); MUST(w&&x&&r);
  CHECK(shr_write(x,"12345678",8)==8); CHECK(shr_write(w,"abcdefgh",8)==8); CHECK(shr_write(w,"ijkl",4)==0); CHECK(shr_write(w,"m",1)==1); CHECK(shr_read(r,b,100)==8&&b[0]=='1'); CHECK(shr_flush(w,0)>=0);
  CHECK(shr_read(r,b,100)==8 && b[0]=='a'); shr_flush(w,0); CHECK(shr_read(r,b,100)==1 && b[0]=='m'); return 0; }
''')
seed('c08-hole','C08','a reader whose place in the table follows the place of a reader that has closed',
 'waking stops at the first free place, so readers registered after it are not woken',
 [(B,'    if (w->fd[n] == -1) continue;\n    if (wake_one(w,n) < 0) goto done;','    if (w->fd[n] == -1) break;\n    if (wake_one(w,n) < 0) goto done;')],
r'''
int main(){ char b[10]; MUST(shr_init("r",100,0)==0); shr*w=shr_open("r",SHR_WRONLY|SHR_NONBLOCK); shr*r1=shr_open("r",SHR_RDONLY|SHR_NONBLOCK); MUST(w&&r1); pid_t k=fork(); if(!k){ shr*r=shr_open("r",SHR_RDONLY); _exit(shr_read(r,b,10)==3?0:5); }
  usleep(300000); shr_close(r1); CHECK(shr_write(w,"abc",3)==3); int st=0; for(int i=0;i<30;i++){ if(waitpid(k,&st,WNOHANG)==k){ CHECK(st==0); return 0; } usleep(100000); } kill(k,9); CHECK(!"reader woken"); }
''')
seed('c08-half-free','C08','a writer blocked on a large message while the ring is less than half full',
 'readers do not wake blocked writers as long as most of the ring is free anyway',
 [(S,'  if ((l1+l2 <= len) && (bw_wake(s->r2w) < 0)) goto done;\n','  if ((l1+l2 <= len) && (r->u > r->n / 2 || r->m > r->mm / 2) &&\n      (bw_wake(s->r2w) < 0)) goto done;\n')],
r'''
int main(){ char b[100]; MUST(shr_init("r",100,0)==0); shr*w=shr_open("r",SHR_WRONLY); shr*r=shr_open("r",SHR_RDONLY|SHR_NONBLOCK); MUST(w&&r); memset(b,1,100); CHECK(shr_write(w,b,20)==20); CHECK(shr_write(w,b,15)==15);
  pid_t k=fork(); if(!k){ shr*x=shr_open("r",SHR_WRONLY); _exit(shr_write(x,b,85)==85?0:5); } usleep(300000); CHECK(shr_read(r,b,100)==20);
  int st=0; for(int i=0;i<30;i++){ if(waitpid(k,&st,WNOHANG)==k){ CHECK(st==0); return 0; } usleep(100000); } kill(k,9); CHECK(!"writer woken"); }
''')
seed('c09-drain-unlocked','C09','a write between a read that finds the ring empty and the clearing of its descriptor',
 'the wakeup of a concurrent write is discarded, leaving the descriptor unreadable with a message in the ring',
 [(S,'    if (s->flags & SHR_NONBLOCK) {\n      bw_force(s->w2r, 0);\n      rc = 0;\n','    if (s->flags & SHR_NONBLOCK) {\n      unlock(s->ring_fd);\n      bw_force(s->w2r, 0);\n      rc = 0;\n')],
r'''
#include <sys/ioctl.h>
static int armed, go[2], ok[2];
int ioctl(int fd,unsigned long rq,...){ va_list ap; va_start(ap,rq); void*p=va_arg(ap,void*); va_end(ap); if(armed){ armed=0; char c='g'; write(go[1],&c,1); struct pollfd q={ok[0],POLLIN}; poll(&q,1,1000); } return REAL(ioctl)(fd,rq,p); }
int main(){ char b[10],c; MUST(shr_init("r",100,0)==0); MUST(pipe(go)==0&&pipe(ok)==0); shr*r=shr_open("r",SHR_RDONLY|SHR_NONBLOCK); MUST(r); pid_t k=fork(); if(!k){ shr*w=shr_open("r",SHR_WRONLY|SHR_NONBLOCK); write(ok[1],"r",1); read(go[0],&c,1); shr_write(w,"hello",5); write(ok[1],"d",1); _exit(0); }
  read(ok[0],&c,1); armed=1; ssize_t n=shr_read(r,b,10); MUST(!armed); waitpid(k,NULL,0); if(n==5) return 0; CHECK(n==0); struct pollfd p={shr_get_selectable_fd(r),POLLIN}; CHECK(poll(&p,1,0)==1); return 0; }
''')
seed('c09-open-stat','C09','a statistics reset while messages are unread, before a reader opens',
 'the initial readiness of a reader is derived from the period counters, so after a reset a new reader is not told about waiting messages',
 [(S,'    sc = bw_force(s->w2r, s->r->u ? 1 : 0);\n','    sc = bw_force(s->w2r, (s->r->stat.bw > s->r->stat.br) ? 1 : 0);\n')],
r'''
int main(){ struct shr_stat st; struct timeval t={5,0}; MUST(shr_init("r",10,0)==0); shr*w=shr_open("r",SHR_WRONLY|SHR_NONBLOCK); MUST(w); CHECK(shr_write(w,"a",1)==1); CHECK(shr_stat(w,&st,&t)==0); shr*r=shr_open("r",SHR_RDONLY|SHR_NONBLOCK); MUST(r); struct pollfd p={shr_get_selectable_fd(r),POLLIN}; CHECK(poll(&p,1,0)==1); return 0; }
''')
seed('c10-spin','C10','a blocking read with a wakeup pending that brought it no message',
 'a stale wakeup is never consumed, so the blocked reader spins instead of sleeping',
 [(B,'  nr = recvmsg(w->listenfd, &w->hdr, MSG_DONTWAIT);\n','  nr = recvmsg(w->listenfd, &w->hdr, MSG_DONTWAIT | ((w->flags & BW_TRACE) ? 0 : MSG_PEEK));\n')],
r'''
#include <sys/resource.h>
int main(){ char b[10]; MUST(shr_init("r",10,0)==0); int pp[2]; MUST(pipe(pp)==0); pid_t k=fork(); if(!k){ shr*r=shr_open("r",SHR_RDONLY); write(pp[1],"o",1); for(;;) if(shr_read(r,b,10)!=1) _exit(0); }
  char c; read(pp[0],&c,1); usleep(200000); shr*r2=shr_open("r",SHR_RDONLY|SHR_NONBLOCK); shr*w=shr_open("r",SHR_WRONLY|SHR_NONBLOCK); MUST(r2&&w); for(int i=0;i<60;i++){ shr_write(w,"a",1); shr_read(r2,b,10); usleep(20000); } usleep(1500000); kill(k,9); struct rusage ru; wait4(k,NULL,0,&ru); long us=(ru.ru_utime.tv_sec+ru.ru_stime.tv_sec)*1000000+ru.ru_utime.tv_usec+ru.ru_stime.tv_usec; fprintf(stderr,"%ld us of cpu\n",us); CHECK(us<300000); return 0; }
''')
seed('c10-toggle-lost','C10','a blocking flush on a non-blocking buffered handle that is interrupted by a registered descriptor',
 'the handle stays in blocking mode after its blocking flush was interrupted',
 [(S,'  if (nr > 0) {\n    s->c.n = 0;\n    s->c.vm = 0;\n  }\n\n done:\n  if (toggled) s->flags |= SHR_NONBLOCK;\n  return nr;\n','  if (toggled) s->flags |= SHR_NONBLOCK;\n  if (nr > 0) {\n    s->c.n = 0;\n    s->c.vm = 0;\n  }\n\n done:\n  return nr;\n')],
r'''
int main(){ char b[100]; alarm(20); MUST(shr_init("r",10,0)==0); shr*x=shr_open("r",SHR_WRONLY|SHR_NONBLOCK); shr*r=shr_open("r",SHR_RDONLY|SHR_NONBLOCK); shr*w=shr_open("r",SHR_WRONLY|SHR_NONBLOCK|SHR_BUFFERED); MUST(x&&r&&w); int pp[2]; MUST(pipe(pp)==0);
  CHECK(shr_write(w,"a",1)==1); CHECK(shr_flush(w,1)==1); CHECK(shr_ctl(w,SHR_POLLFD,pp[0])==0); CHECK(shr_write(x,"12345678",8)==8); CHECK(shr_write(w,"abcde",5)==5); write(pp[1],"x",1); shr_flush(w,1); read(pp[0],b,1); CHECK(shr_flush(w,0)==0); return 0; }
''')
seed('c12-dead-kept','C12','readers that died without closing, and as many live ones as places, with no write in between',
 'places of dead processes are only freed when a writer opens or writes, so a new reader is refused although places are free',
 [(B,'  sc = prune_handle(h);\n  if (sc < 0) goto done;\n\n','  sc = (flags & BW_WAKE) ? prune_handle(h) : 0;\n  if (sc < 0) goto done;\n\n')],
r'''
int main(){ MUST(shr_init("r",100,0)==0); shr*r[64]; pid_t k=fork(); if(!k){ for(int i=0;i<10;i++) if(!shr_open("r",SHR_RDONLY)) _exit(1); _exit(0); } waitpid(k,NULL,0); /* no shr_close */ for(int i=0;i<64;i++) CHECK(r[i]=shr_open("r",SHR_RDONLY|SHR_NONBLOCK)); return 0; }
''')
seed('c13-drain-once','C13','a waiter with more pending wakeups than one batch of the draining call takes',
 'clearing removes only the first few pending wakeups',
 [(B,'#define DRAIN_MSGS 1024\nstatic int drain_msgs','#define DRAIN_MSGS 8\nstatic int drain_msgs'),(B,'#define DRAIN_MSGS 1024\nint bw_force','#define DRAIN_MSGS 8\nint bw_force'),(B,'  } while (nr > 0);\n\n  rc = 0;\n','  } while (nr > DRAIN_MSGS);\n\n  rc = 0;\n')],
r'''
#include "bw.h"
int main(){ bw_handle*h=mmap(0,sizeof*h,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); MUST(h!=MAP_FAILED); memset(h,0,sizeof*h); int f=-1; bw_t*a=bw_open(BW_WAIT,h,&f); bw_t*k=bw_open(BW_WAKE,h); MUST(a&&k); for(int i=0;i<11;i++) CHECK(bw_wake(k)==0); CHECK(bw_force(a,0)==0); struct pollfd p={f,POLLIN}; CHECK(poll(&p,1,0)==0); return 0; }
''')
seed('c14-flush-lock-held','C14','failure to register as a waiter (such as no free place) in a blocking flush of a non-blocking handle',
 'the ring stays locked after a blocking flush that failed to register',
 [(S,'      unlock(s->ring_fd);\n      if (s->r2w == NULL) goto done;\n','      if (s->r2w == NULL) goto done;\n      unlock(s->ring_fd);\n')],
r'''
static int fail; int epoll_create(int n){ if(fail){ errno=EMFILE; return -1; } return REAL(epoll_create)(n); }
int main(){ char b[100]; MUST(shr_init("r",10,0)==0); shr*w=shr_open("r",SHR_WRONLY|SHR_NONBLOCK|SHR_BUFFERED); MUST(w); CHECK(shr_write(w,"a",1)==1); fail=1; CHECK(shr_flush(w,1)<0); fail=0;
  pid_t k=fork(); if(!k){ alarm(5); shr*r=shr_open("r",SHR_RDONLY|SHR_NONBLOCK); _exit(r?0:1); } int st; waitpid(k,&st,0); CHECK(st==0); return 0; }
''')
seed('c14-wake-slot-lost','C14','a transient failure of connect in a writer that opens the ring',
 'a waiter that cannot be reached for lack of resources is unregistered',
 [(B,'       has_pid_socket(h->wr[n].pid, w->name[n]); \n  if (sc == 0) {\n    h->wr[n].pid = 0;','       has_pid_socket(h->wr[n].pid, w->name[n]); \n  if ((sc == 0) || (errtmp == EAGAIN)) {\n    h->wr[n].pid = 0;')],
r'''
static int fail; int connect(int fd,const struct sockaddr*a,socklen_t l){ if(fail){ errno=EAGAIN; return -1; } return REAL(connect)(fd,a,l); }
int main(){ char b[100]; MUST(shr_init("r",10,0)==0); shr*r=shr_open("r",SHR_RDONLY|SHR_NONBLOCK); MUST(r); fail=1; shr*w=shr_open("r",SHR_WRONLY|SHR_NONBLOCK); fail=0; if(!w) w=shr_open("r",SHR_WRONLY|SHR_NONBLOCK); MUST(w); CHECK(shr_write(w,"a",1)==1); struct pollfd p={shr_get_selectable_fd(r),POLLIN}; CHECK(poll(&p,1,0)==1); return 0; }
''')
seed('c15-short-set','C15','setting application data of a smaller size than the ring was created with',
 'application data shorter than that of the ring is accepted, mixing old and new bytes',
 [(S,'  if ((get == NULL) && (set != NULL)) {\n    if (*sz != r->app_len) goto done;\n','  if ((get == NULL) && (set != NULL)) {\n    if (*sz > r->app_len) goto done;\n')],
r'''
int main(){ char o[8]="old-old",n[8]="new"; size_t z=4; MUST(shr_init("r",10,SHR_APPDATA,o,(size_t)8)==0); shr*r=shr_open("r",SHR_RDONLY|SHR_NONBLOCK); MUST(r); CHECK(shr_appdata(r,NULL,n,&z)==-1); void*g=NULL; CHECK(shr_appdata(r,&g,NULL,&z)==0&&z==8&&!memcmp(g,"old-old",8)); return 0; }
''')
seed('c16-keep-touch','C16','keep-exist on an existing ring together with application data',
 'keep-exist overwrites the application data of the existing ring',
 [(S,'  if (exists && (flags & SHR_KEEPEXIST)) {\n    rc = 0;\n    goto done;\n  } \n','  if (exists && (flags & SHR_KEEPEXIST)) {\n    rc = 0;\n    if (appsize) {\n      shr *x = shr_open(file, SHR_RDONLY);\n      if (x == NULL) rc = -1;\n      else { shr_appdata(x, NULL, appdata, &appsize); shr_close(x); }\n    }\n    goto done;\n  } \n')],
r'''
int main(){ void*g=NULL; size_t z=0; MUST(shr_init("r",10,SHR_APPDATA,"first",(size_t)5)==0); CHECK(shr_init("r",99,SHR_APPDATA|SHR_KEEPEXIST,"other",(size_t)5)==0); shr*r=shr_open("r",SHR_RDONLY|SHR_NONBLOCK); MUST(r); CHECK(shr_appdata(r,&g,NULL,&z)==0&&z==5&&!memcmp(g,"first",5)); return 0; }
''')
seed('c21-loser-unlinks','C21','two concurrent creations of one ring',
 'the creation that loses the race removes the ring made by the winner',
 [(S,'  if (rc && (fd != -1)) unlink(file);\n','  if (rc && (errno != ENOENT)) unlink(file);\n')],
r'''
static int in; int open(const char*f,int fl,...){ va_list ap; va_start(ap,fl); int m=va_arg(ap,int); va_end(ap); if(in==1&&(fl&O_CREAT)){ in=2; pid_t k=fork(); if(!k) _exit(shr_init("r",20,0)?1:0); int st; waitpid(k,&st,0); MUST(st==0); } return REAL(open)(f,fl,m); }
int main(){ in=1; int rc=shr_init("r",10,0); MUST(in==2); in=0; shr*r=shr_open("r",SHR_RDONLY|SHR_NONBLOCK); CHECK(r); struct shr_stat st; CHECK(shr_stat(r,&st,NULL)==0); CHECK(st.bn==(rc?20:10)); return 0; }
''')
seed('c22-flushwait-r2w','C22','closing a non-blocking buffered writer that did a blocking flush',
 'the waiter registered for a blocking flush is not released when a non-blocking handle is closed',
 [(S,'  if (s->r2w) bw_close(s->r2w);\n  unlock(s->ring_fd);\n\n end:','  if (s->r2w && ((s->flags & SHR_RDONLY) || !(s->flags & SHR_NONBLOCK))) bw_close(s->r2w);\n  unlock(s->ring_fd);\n\n end:')],
r'''
static int nfd(){ int n=0; DIR*d=opendir("/proc/self/fd"); while(readdir(d)) n++; closedir(d); return n; }
int main(){ MUST(shr_init("r",1000,0)==0); int a=nfd(); for(int i=0;i<3;i++){ shr*w=shr_open("r",SHR_WRONLY|SHR_NONBLOCK|SHR_BUFFERED); MUST(w); CHECK(shr_write(w,"a",1)==1); CHECK(shr_flush(w,1)==1); shr_close(w); } CHECK(nfd()==a); return 0; }
''')
seed('c22-munmap-len','C22','closing a handle of a ring whose slot table spans pages of its own',
 'closing leaves the part of the mapping that holds the slot table and application data mapped',
 [(S,'  assert(s->buf);\n  munmap(s->buf, s->s.st_size);\n','  assert(s->buf);\n  munmap(s->buf, sizeof(shr_ctrl) + s->n);\n')],
r'''
static int maps(){ int n=0; char l[500]; FILE*f=fopen("/proc/self/maps","r"); while(fgets(l,500,f)) if(strstr(l,"/ring")) n++; fclose(f); return n; }
int main(){ MUST(shr_init("ring",100,SHR_MAXMSGS_2,(size_t)5000)==0); shr*w=shr_open("ring",SHR_WRONLY); MUST(w); MUST(maps()>0); shr_close(w); CHECK(maps()==0); return 0; }
''')
seed('c23-msync-short','C23','a power failure after an operation on a ring whose slot table lies in another page than its data',
 'only the control region and the data are synced, not the message slots and application data after them',
 [(S,'       msync(s->buf, s->s.st_size, MS_SYNC) : 0;\n','       msync(s->buf, sizeof(shr_ctrl) + r->n, MS_SYNC) : 0;\n')],
r'''
static size_t synced; int msync(void*a,size_t n,int f){ if(f&MS_SYNC) synced=n; return REAL(msync)(a,n,f); } int fsync(int fd){ synced=1<<30; return REAL(fsync)(fd); } int fdatasync(int fd){ return fsync(fd); }
int main(){ MUST(shr_init("r",100,SHR_SYNC|SHR_MAXMSGS_2,(size_t)5000)==0); struct stat st; MUST(stat("r",&st)==0); shr*w=shr_open("r",SHR_WRONLY|SHR_NONBLOCK); MUST(w); synced=0; CHECK(shr_write(w,"x",1)==1); CHECK(synced/4096>=(st.st_size-5000)/4096); CHECK(synced+4096>=st.st_size); return 0; }
''')
seed('c23-empty-nosync','C23','a power failure after a read that empties the ring',
 'a read that takes the last message is not synced, so the message is back after a power failure',
 [(S,'  bw_force(s->w2r, msg_ready);\n  if (shr_sync(s) < 0) goto done;\n','  bw_force(s->w2r, msg_ready);\n  if (msg_ready && (shr_sync(s) < 0)) goto done;\n')],
r'''
static int synced; int msync(void*a,size_t n,int f){ if(f&MS_SYNC) synced=1; return REAL(msync)(a,n,f); } int fsync(int fd){ synced=1; return REAL(fsync)(fd); } int fdatasync(int fd){ synced=1; return REAL(fdatasync)(fd); }
int main(){ char b[10]; MUST(shr_init("r",100,SHR_SYNC)==0); shr*w=shr_open("r",SHR_WRONLY|SHR_NONBLOCK); shr*r=shr_open("r",SHR_RDONLY|SHR_NONBLOCK); MUST(w&&r); CHECK(shr_write(w,"x",1)==1); synced=0; CHECK(shr_read(r,b,10)==1); CHECK(synced); return 0; }
''')
seed('c18-frames-limit','C18','more than twelve thousand frames arriving at once with nothing after them',
 'after storing a certain number of frames the rest waits in the buffer until more data comes',
 [(T,'    if (iov_used == NUMIOV) break;\n','    if (iov_used == MIN_IOV) break;\n'),(T,'#define NUMIOV (1024 * 1024)\n','#define NUMIOV (1024 * 1024)\n#define MIN_IOV 12288\n')],None,TOOLSH+r'''
$tool create -s 1m -N 20000 ring || exit 3
port=$(newport)
cat > s.py <<'X'
import socket,sys,struct,time
l=socket.socket(); l.setsockopt(socket.SOL_SOCKET,socket.SO_REUSEADDR,1); l.bind(('127.0.0.1',int(sys.argv[1]))); l.listen(1); open('up','w').close(); c,_=l.accept()
c.sendall(struct.pack('<Ib',1,97)*15000); time.sleep(1.5); c.close()
X
timeout 30 python3 s.py $port & for i in 1 2 3 4 5 6 7 8 9 10; do [ -e up ] && break; sleep 0.2; done
timeout 20 $tool sub 127.0.0.1:$port ring >/dev/null 2>&1
[ "$($tool read ring 2>/dev/null | wc -c)" = 15000 ]
''')
seed('c19-tee-buffered','C19','messages that arrive while tee keeps running',
 'messages for the second ring stay in a buffer of tee until enough have come or it ends',
 [(T,'      cfg.o2 = shr_open(ring2, SHR_WRONLY);\n','      cfg.o2 = shr_open(ring2, SHR_WRONLY|SHR_BUFFERED);\n')],None,TOOLSH+r'''
$tool create -s 1m a b c || exit 3
$tool tee a b c >/dev/null 2>&1 &
sleep 0.5; echo hello | $tool write a; sleep 1; [ "$($tool read b 2>/dev/null)" = hello ] && [ "$($tool read c 2>/dev/null)" = hello ]
''')
seed('c20-hex-signed','C20','readhex of a message with bytes above 0x7f',
 'bytes above 0x7f are shown sign-extended',
 [(T,'  size_t i,n=0;\n  unsigned char c;\n','  size_t i,n=0;\n  char c;\n')],None,TOOLSH+r'''
$tool create -s 100 ring || exit 3
$tool writehex 41ff80 ring && $tool readhex ring 2>/dev/null | grep -q '^00000000 41 ff 80  '
''')
seed('c20-hex-16','C20','readhex of a message whose length is a multiple of sixteen',
 'an additional empty line is printed for messages that fill their last line exactly',
 [(T,'  while(n < len) {\n    fprintf(stdout,"%08x ", (int)n);\n','  while((n < len) || ((n == len) && (len > 16))) {\n    fprintf(stdout,"%08x ", (int)n);\n')],None,TOOLSH+r'''
$tool create -s 100 ring || exit 3
$tool writehex 000102030405060708090a0b0c0d0e0f000102030405060708090a0b0c0d0e0f ring && [ $($tool readhex ring 2>/dev/null | wc -l) = 2 ]
''')
seed('c24-first-only','C24','create with several ring names and application data, one of which exists and cannot be replaced',
 'a failure to create one of several rings is not reported if a later one succeeds',
 [(T,'          rc = shr_init(argv[optind++], cfg.size, cfg.flags, cfg.max_msgs);\n          if (rc < 0) goto done;\n','          rc = shr_init(argv[optind++], cfg.size, cfg.flags, cfg.max_msgs);\n          if ((rc < 0) && (optind == argc)) goto done;\n')],None,TOOLSH+r'''
mkdir d || exit 3
$tool create -s 100 r1 || exit 1
! $tool create -s 100 d/missing/x r2 2>/dev/null
''')
