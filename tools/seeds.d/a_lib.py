S='src/shr.c'; B='lib/bw.c'; U='lib/ux.c'; T='util/shr-tool.c'
seed('c04-missed-not-accumulated','C04','a farm reader falls behind twice between resets of its counter',
 'shr_farm_stat forgets the messages missed earlier in the period',
 [(S,'    s->md += (r->q - s->q); \n','    s->md = (r->q - s->q); \n')],
r'''
int main(){ char b[100]; MUST(shr_init("r",4,SHR_FARM|SHR_MAXMSGS_2,(size_t)2)==0); shr*w=shr_open("r",SHR_WRONLY); shr*r=shr_open("r",SHR_RDONLY|SHR_NONBLOCK); MUST(w&&r);
  for(int k=0;k<3;k++) CHECK(shr_write(w,"a",1)==1);
  CHECK(shr_read(r,b,100)==1); CHECK(shr_farm_stat(r,0)==1);
  for(int k=0;k<3;k++) CHECK(shr_write(w,"b",1)==1);
  while(shr_read(r,b,100)>0); size_t d=shr_farm_stat(r,1); fprintf(stderr,"%zu\n",d); CHECK(d==1+2); CHECK(shr_farm_stat(r,0)==0); return 0; }
''')
seed('c05-cache-slots','C05','a buffered writer on a ring with fewer message slots than the cache holds messages',
 'more messages are cached than the ring can ever take at once, so flushing fails and they are lost',
 [(S,'  s->c.vt = MIN(10000, s->r->mm);\n','  s->c.vt = 10000;\n')],
r'''
int main(){ char b[100]; MUST(shr_init("r",100,SHR_MAXMSGS_2,(size_t)3)==0); shr*w=shr_open("r",SHR_WRONLY|SHR_NONBLOCK|SHR_BUFFERED); shr*r=shr_open("r",SHR_RDONLY|SHR_NONBLOCK); MUST(w&&r);
  int acc=0; for(int i=0;i<5;i++){ char c='a'+i; if(shr_write(w,&c,1)==1) acc++; } CHECK(acc>=3); int got=0; for(int k=0;k<4;k++){ CHECK(shr_flush(w,0)>=0); while(shr_read(r,b,100)==1){ CHECK(b[0]=='a'+got); got++; } } CHECK(got==acc); return 0; }
''')
seed('c03-drop-slot-wrap','C03','one write that evicts several messages whose slots straddle the end of the slot table',
 'lengths of evicted messages are taken from beyond the slot table, so too much is discarded and the counters go wrong',
 [(S,'    p++;\n    if (p == s->mm) p = 0;\n  }\n\n  r->r = p;\n','    p++;\n  }\n\n  if (p >= s->mm) p -= s->mm;\n  r->r = p;\n')],
r'''
int main(){ char b[100]; struct shr_stat st; MUST(shr_init("r",16,SHR_DROP|SHR_MAXMSGS_2,(size_t)4)==0); shr*w=shr_open("r",SHR_WRONLY); shr*r=shr_open("r",SHR_RDONLY|SHR_NONBLOCK); MUST(w&&r);
  size_t acc=0; for(int k=0;k<30;k++){ int l=1+k%5; if(k%7==6) l=16; CHECK(shr_write(w,"0123456789abcdef",l)==l); acc+=l; CHECK(shr_stat(w,&st,NULL)==0); CHECK(st.bu<=16 && st.bw==acc && st.bd+st.bu==acc); } return 0; }
''')
seed('c02-too-many-messages','C02','a batch with more messages than the ring has slots, on a non-blocking writer',
 'a batch that can never fit is reported as temporarily not fitting (0) instead of as an error',
 [(S,'    if (niov > s->mm) goto done;\n',''),(S,'    if (len > SSIZE_MAX) goto done;\n  }\n','    if (len > SSIZE_MAX) goto done;\n  }\n  if ((niov > s->mm) && (s->flags & SHR_BUFFERED)) goto done;\n')],
r'''
int main(){ struct iovec v[3]; for(int i=0;i<3;i++){ v[i].iov_base="x"; v[i].iov_len=1; } MUST(shr_init("r",100,SHR_MAXMSGS_2,(size_t)2)==0); shr*w=shr_open("r",SHR_WRONLY|SHR_NONBLOCK); MUST(w);
  CHECK(shr_writev(w,v,2)==2); CHECK(shr_writev(w,v,3)==-1); return 0; }
''')
seed('c12-last-waiter','C12','sixty-four waiters at once',
 'the waiter in the last place of the table is never woken',
 [(B,'''  for(n = 0; n < BW_WAITMAX; n++) {
    if (w->fd[n] == -1) continue;
    if (wake_one(w,n) < 0) goto done;''','''  for(n = 0; n < BW_WAITMAX-1; n++) {
    if (w->fd[n] == -1) continue;
    if (wake_one(w,n) < 0) goto done;''')],
r'''
int main(){ shr*r[64]; char b[10]; MUST(shr_init("r",100,SHR_FARM)==0); shr*w=shr_open("r",SHR_WRONLY); MUST(w); for(int i=0;i<64;i++){ r[i]=shr_open("r",SHR_RDONLY|SHR_NONBLOCK); CHECK(r[i]); CHECK(shr_read(r[i],b,10)==0); }
  CHECK(shr_open("r",SHR_RDONLY|SHR_NONBLOCK)==NULL);
  CHECK(shr_write(w,"x",1)==1); for(int i=0;i<64;i++){ struct pollfd p={shr_get_selectable_fd(r[i]),POLLIN}; if(poll(&p,1,0)!=1){ fprintf(stderr,"reader %d not woken\n",i); return 1; } } return 0; }
''')
seed('c13-name-prefix','C13','a waiter closes and another takes its place with a socket name differing only in the last digit, between two wakes of an open waker',
 'a waker keeps its connection to the former occupant of a place, so the new waiter is not woken',
 [(B,'      memcmp(h->wr[n].name, w->name[n], BW_NAMELEN))) {','      memcmp(h->wr[n].name, w->name[n], BW_NAMELEN-3))) {')],
r'''
#include "bw.h"
#include <sys/un.h>
static int seq=0x120; int bind(int fd,const struct sockaddr*a,socklen_t l){ if(l!=sizeof(sa_family_t)) return REAL(bind)(fd,a,l); struct sockaddr_un u; for(int i=0;i<4000;i++){ memset(&u,0,sizeof u); u.sun_family=AF_UNIX; snprintf(u.sun_path+1,20,"%05x",seq++); if(REAL(bind)(fd,(struct sockaddr*)&u,sizeof(sa_family_t)+6)==0) return 0; } return -1; } /* names given in sequence, as older kernels do */
int main(){ bw_handle*h=mmap(0,sizeof*h,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); MUST(h!=MAP_FAILED); memset(h,0,sizeof*h);
  for(int k=0;k<40;k++){ int f1=-1,f2=-1; bw_t*wk=bw_open(BW_WAKE,h); bw_t*a=bw_open(BW_WAIT,h,&f1); MUST(wk&&a); CHECK(bw_wake(wk)==0); struct pollfd p={f1,POLLIN}; CHECK(poll(&p,1,0)==1);
    char old[8]; memcpy(old,(char*)h->wr[0].name,8); bw_close(a); bw_t*b=bw_open(BW_WAIT,h,&f2); MUST(b); 
    CHECK(bw_wake(wk)==0); struct pollfd q={f2,POLLIN}; if(poll(&q,1,0)!=1){ fprintf(stderr,"waiter %s in the place of %s not woken\n",(char*)h->wr[0].name,old); return 1; }
    bw_close(b); bw_close(wk); } return 0; }
''')
seed('c14-unsure-is-gone','C14','a failure to read /proc (such as running out of descriptors) while another process has a reader open',
 'a waiter whose liveness cannot be determined is unregistered, so it is never woken again',
 [(U,'  if (sc < 0) return sc;\n\n  sc = has_socket_name','  if (sc < 0) return 0;\n\n  sc = has_socket_name')],
r'''
static int fail; DIR *opendir(const char*p){ if(fail){ errno=EMFILE; return NULL; } return REAL(opendir)(p); }
int main(){ char b[10]; MUST(shr_init("r",100,0)==0); shr*r=shr_open("r",SHR_RDONLY|SHR_NONBLOCK); MUST(r); CHECK(shr_read(r,b,10)==0); fail=1; shr*w=shr_open("r",SHR_WRONLY|SHR_NONBLOCK); fail=0; if(!w) w=shr_open("r",SHR_WRONLY|SHR_NONBLOCK); MUST(w);
  CHECK(shr_write(w,"x",1)==1); struct pollfd p={shr_get_selectable_fd(r),POLLIN}; CHECK(poll(&p,1,0)==1); return 0; }
''')
seed('c15-appdata-over-slots','C15','a data size that is not a multiple of eight, application data, and messages in the last slot (two sites that agree with each other)',
 'application data is placed before the alignment padding, overlapping the last message slot',
 [(S,'    memcpy(r->d + r->n + r->pad_len + r->mv_len, appdata, appsize);\n','    memcpy(r->d + r->n + r->mv_len, appdata, appsize);\n'),
  (S,'  ad = r->d + r->n + r->pad_len + r->mv_len;\n','  ad = r->d + r->n + r->mv_len;\n')],
r'''
int main(){ char b[100]; MUST(shr_init("r",13,SHR_APPDATA|SHR_MAXMSGS_2,"application",(size_t)11,(size_t)3)==0); shr*w=shr_open("r",SHR_WRONLY|SHR_NONBLOCK); shr*r=shr_open("r",SHR_RDONLY|SHR_NONBLOCK); MUST(w&&r);
  for(int i=0;i<7;i++){ void*g=NULL; size_t sz=0; CHECK(shr_appdata(w,&g,NULL,&sz)==0); CHECK(sz==11 && !memcmp(g,"application",11)); free(g); CHECK(shr_write(w,"abc",3)==3); CHECK(shr_read(r,b,100)==3 && !memcmp(b,"abc",3)); } return 0; }
''')
seed('c16-truncate-in-place','C16','re-creating a ring (without keep-exist) that another process has open',
 'the existing file is truncated and re-used instead of being replaced, destroying the ring under its users',
 [(S,'''  sc = exists ? unlink(file) : 0;
  if (sc < 0) {
    shr_log("unlink %s: %s\\n", file, strerror(errno));
    goto done;
  }

  fd = open(file, O_RDWR|O_CREAT|O_EXCL, CREAT_MODE);
''','''  fd = open(file, O_RDWR|O_CREAT|(exists ? 0 : O_EXCL), CREAT_MODE);
''')],
r'''
int main(){ char b[100]; MUST(shr_init("r",1000,0)==0); shr*w=shr_open("r",SHR_WRONLY|SHR_NONBLOCK); shr*r=shr_open("r",SHR_RDONLY|SHR_NONBLOCK); MUST(w&&r); CHECK(shr_write(w,"abc",3)==3);
  MUST(shr_init("r",1000,0)==0); CHECK(shr_read(r,b,100)==3 && !memcmp(b,"abc",3)); CHECK(shr_write(w,"de",2)==2); CHECK(shr_read(r,b,100)==2);
  shr*n=shr_open("r",SHR_RDONLY|SHR_NONBLOCK); CHECK(n); CHECK(shr_write(w,"fg",2)==2); CHECK(shr_read(n,b,100)==0); return 0; }
''')
seed('c17-truncated-appdata','C17','a ring file with application data whose end has been cut off',
 'a ring truncated inside its application data is opened, and reading the application data crashes or returns other bytes',
 [(S,'  exp_sz = sizeof(shr_ctrl) + r->n + r->pad_len + r->mv_len + r->app_len;\n','  exp_sz = sizeof(shr_ctrl) + r->n + r->pad_len + r->mv_len;\n')],
r'''
int main(){ static char ad[3000]; memset(ad,7,3000); MUST(shr_init("r",100,SHR_APPDATA,ad,(size_t)3000)==0); struct stat s; MUST(stat("r",&s)==0); 
  for(int cut=1;cut<s.st_size;cut+=7){ MUST(truncate("r",s.st_size-cut)==0); shr*r=shr_open("r",SHR_RDONLY|SHR_NONBLOCK); CHECK(r==NULL); } return 0; }
''')
seed('c21-init-unlocked','C21','another process opening the ring between two steps of its creation',
 'the ring under construction is not locked, so an opener can get it before its application data and attributes are in place',
 [(S,'  if (lock(fd) < 0) /* close() below releases lock */\n    goto done;\n','')],
r'''
static char ad[64]; static int in, pp[2]; static pid_t kid;
static int child(){ shr*r=shr_open("r",SHR_RDONLY|SHR_NONBLOCK); if(!r) return 0; struct shr_stat st; if(shr_stat(r,&st,NULL)) return 3; void*g=NULL; size_t n=0; if(!(st.flags&SHR_DROP)) return 4; if(shr_appdata(r,&g,NULL,&n)) return 5; return memcmp(g,ad,sizeof ad)?6:0; }
void *memcpy(void*d,const void*s,size_t n){ char*a=d; const char*b=s; if(in && s==ad && n==sizeof ad){ in=0; kid=fork(); if(kid==0) _exit(child()); for(int i=0;i<100;i++){ usleep(10000); siginfo_t si; si.si_pid=0; if(waitid(P_PID,kid,&si,WEXITED|WNOHANG|WNOWAIT)==0 && si.si_pid==kid) break; } } for(size_t i=0;i<n;i++) a[i]=b[i]; return d; }
int main(){ memset(ad,'a',sizeof ad); in=1; int rc=shr_init("r",100,SHR_DROP|SHR_APPDATA,ad,sizeof ad); MUST(rc==0); MUST(kid); int st; MUST(waitpid(kid,&st,0)==kid); fprintf(stderr,"status %x\n",st); CHECK(WIFEXITED(st)&&WEXITSTATUS(st)==0); return 0; }
''')
seed('c22-drain-leak','C22','a reader that drained pending wakeups is closed',
 'the buffer used to discard wakeups is leaked by every such reader',
 [(B,'    if (w->drain) free(w->drain);\n','')],
r'''
int main(){ char b[10]; MUST(shr_init("r",100,0)==0); shr*w=shr_open("r",SHR_WRONLY|SHR_NONBLOCK); MUST(w); size_t m0=0; for(int i=0;i<50;i++){ shr*r=shr_open("r",SHR_RDONLY|SHR_NONBLOCK); MUST(r); shr_write(w,"x",1); while(shr_read(r,b,10)>0); shr_close(r); size_t m=mallinfo2().uordblks+mallinfo2().hblkhd; if(i==5) m0=m; if(i==49){ fprintf(stderr,"%zu -> %zu\n",m0,m); CHECK(m<m0+20000); } } return 0; }
''')
seed('c23-async','C23','a power failure after an operation on a SHR_SYNC ring has returned',
 'the ring is only scheduled for writing, not written, when an operation returns',
 [(S,'       msync(s->buf, s->s.st_size, MS_SYNC) : 0;\n','       msync(s->buf, s->s.st_size, MS_ASYNC) : 0;\n')],
r'''
static int synced; int msync(void*a,size_t n,int f){ if((f&MS_SYNC)&&n>=sizeof(long)) synced=1; return REAL(msync)(a,n,f); }
int fsync(int fd){ synced=1; return REAL(fsync)(fd); } int fdatasync(int fd){ synced=1; return REAL(fdatasync)(fd); }
int main(){ MUST(shr_init("r",100,SHR_SYNC)==0); shr*w=shr_open("r",SHR_WRONLY|SHR_NONBLOCK); MUST(w); synced=0; CHECK(shr_write(w,"x",1)==1); CHECK(synced); return 0; }
''')
seed('c07-stat-unlocked','C07','another process writing between two parts of one shr_stat call',
 'shr_stat takes the ring state outside the lock, so its numbers belong to different moments',
 [(S,'  if (lock(s->ring_fd) < 0) goto done;\n\n  /* copy stats */\n  *stat = s->r->stat;\n','  /* copy stats */\n  *stat = s->r->stat;\n\n  if (lock(s->ring_fd) < 0) goto done;\n')],
r'''
static int armed, go[2], ok[2]; static int shut;
int fcntl(int fd,int cmd,...){ va_list ap; va_start(ap,cmd); struct flock*f=va_arg(ap,void*); va_end(ap); if(armed && cmd==F_SETLKW && f->l_type==F_WRLCK){ armed=0; char c='g'; write(go[1],&c,1); read(ok[0],&c,1); } int rc=((int(*)(int,int,...))dlsym(RTLD_NEXT,"fcntl"))(fd,cmd,f);
  return rc; }
int main(){ struct shr_stat st; MUST(shr_init("r",100,0)==0); MUST(pipe(go)==0&&pipe(ok)==0); shr*r=shr_open("r",SHR_RDONLY|SHR_NONBLOCK); MUST(r);
  pid_t k=fork(); if(!k){ char c; shr*w=shr_open("r",SHR_WRONLY|SHR_NONBLOCK); write(ok[1],"r",1); read(go[0],&c,1); shr_write(w,"hello",5); write(ok[1],"d",1); _exit(0); }
  char c; read(ok[0],&c,1); armed=1; CHECK(shr_stat(r,&st,NULL)==0); if(armed){ write(go[1],"g",1); } waitpid(k,NULL,0); fprintf(stderr,"bw %zu bu %zu\n",st.bw,st.bu); CHECK(st.bw==st.bu+st.br); CHECK(st.mw==st.mu+st.mr); return 0; }
''')
seed('c11-drop-before-wake','C11','a drop-mode writer killed while it wakes the readers of a full ring',
 'a killed write leaves the oldest unread messages discarded although nothing was written',
 [(S,'''  /* in drop mode, make space if we need it */
  if ((r->n - r->u < len) || (r->mm - r->m < niov))
    drop_unread(s, len, niov);

''',''),(S,'''    /* drop mode makes its own space (below) */
    if (r->gflags & SHR_DROP) break;
''','''    /* in drop mode, make space */
    if (r->gflags & SHR_DROP) {
      drop_unread(s, len, niov);
      break;
    }
''')],
r'''
static int die; ssize_t sendmsg(int fd,const struct msghdr*m,int f){ if(die) _exit(9); return REAL(sendmsg)(fd,m,f); }
int main(){ char b[100]; MUST(shr_init("r",10,SHR_DROP)==0); shr*w=shr_open("r",SHR_WRONLY); shr*r=shr_open("r",SHR_RDONLY|SHR_NONBLOCK); MUST(w&&r); CHECK(shr_write(w,"aaaaaa",6)==6); CHECK(shr_write(w,"bbb",3)==3);
  pid_t k=fork(); if(!k){ shr*x=shr_open("r",SHR_WRONLY); die=1; shr_write(x,"cccc",4); _exit(0); } int st; waitpid(k,&st,0);
  ssize_t n=shr_read(r,b,100); if(n==6){ CHECK(shr_read(r,b,100)==3); CHECK(shr_read(r,b,100)==0); } else { CHECK(n==3); CHECK(shr_read(r,b,100)==4); } return 0; }
''')
seed('c10-event-drained','C10','a blocked read with both a wakeup that brings no message and a ready registered descriptor',
 'a registered descriptor is only honoured when the wait has nothing else to do: a blocked writer with a registered descriptor is not interrupted (the descriptor is added to the wrong set for writers)',
 [(S,'      if ((s->flags & SHR_WRONLY) && s->r2w) sc = bw_ctl(s->r2w, BW_POLLFD, fd);\n','      if ((s->flags & SHR_WRONLY) && s->r2w && (s->c.sz == 0)) sc = bw_ctl(s->r2w, BW_POLLFD, fd);\n')],
r'''
int main(){ MUST(shr_init("r",10,0)==0); int pp[2]; MUST(pipe(pp)==0); pid_t k=fork(); if(!k){ shr*w=shr_open("r",SHR_WRONLY|SHR_BUFFERED); if(shr_ctl(w,SHR_POLLFD,pp[0])) _exit(4); if(shr_write(w,"0123456789",10)!=10) _exit(5); if(shr_flush(w,0)!=10) _exit(6); if(shr_write(w,"ab",2)!=2) _exit(7); _exit(shr_flush(w,0)==-3?0:8); }
  usleep(300000); write(pp[1],"x",1); int st=0; for(int i=0;i<30;i++){ if(waitpid(k,&st,WNOHANG)==k){ fprintf(stderr,"%x\n",st); CHECK(st==0); return 0; } usleep(100000); } kill(k,9); CHECK(!"interrupted"); }
''')
seed('c01-drop-slot','C01','a batch that ends in the last message slot followed by another message (slot limit below the byte limit)',
 'a batch of several messages that wraps around the slot table writes one message beyond it',
 [(S,'    r->i = (r->i + bsz) % r->n;\n    p++;\n    if (p == r->mm) p = 0;\n','    r->i = (r->i + bsz) % r->n;\n    p = ((p + 1) % (r->mm + ((r->pad_len > 4) && niov > 2)));\n')],
r'''
int main(){ char b[100]; struct iovec v[3]={{"a",1},{"bc",2},{"def",3}}; MUST(shr_init("r",17,SHR_MAXMSGS_2,(size_t)4)==0); shr*w=shr_open("r",SHR_WRONLY|SHR_NONBLOCK); shr*r=shr_open("r",SHR_RDONLY|SHR_NONBLOCK); MUST(w&&r);
  for(int k=0;k<9;k++){ CHECK(shr_writev(w,v,3)==6); CHECK(shr_read(r,b,100)==1&&b[0]=='a'); CHECK(shr_read(r,b,100)==2&&!memcmp(b,"bc",2)); CHECK(shr_read(r,b,100)==3&&!memcmp(b,"def",3)); } return 0; }
''')
