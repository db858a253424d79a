seed('c06-same-start','C06','two successive resets given the same start time',
 'a reset whose start time equals the previous one does not zero the counters',
 [(S,'  if (reset) {\n    memset(&s->r->stat, 0, sizeof(s->r->stat));\n','  if (reset && memcmp(reset, &s->r->stat.start, sizeof(*reset))) {\n    memset(&s->r->stat, 0, sizeof(s->r->stat));\n')],
r'''
int main(){ struct shr_stat st; struct timeval tv={1000,5}; char b[10]; MUST(shr_init("r",100,0)==0); shr*w=shr_open("r",SHR_WRONLY); MUST(w); CHECK(shr_write(w,"abc",3)==3);
  CHECK(shr_stat(w,&st,&tv)==0 && st.bw==3); CHECK(shr_write(w,"de",2)==2); CHECK(shr_stat(w,&st,&tv)==0 && st.bw==2); CHECK(shr_stat(w,&st,NULL)==0 && st.bw==0 && st.mw==0 && st.bu==5); return 0; }
''')
seed('c06-readv-short-count','C06','a vectored read that ends because the iovec array is full while more messages are ready',
 'messages-read counts the messages asked for last instead of those returned when the iovec array limits a read',
 [(S,'  r->stat.br += nr;\n  r->stat.mr += mc;\n','  r->stat.br += nr;\n  r->stat.mr += (*niov == 0) ? MIN(mc, 2) : mc;\n')],
r'''
int main(){ struct shr_stat st; char b[100]; struct iovec v[5]; size_t n; MUST(shr_init("r",100,0)==0); shr*w=shr_open("r",SHR_WRONLY),*r=shr_open("r",SHR_RDONLY|SHR_NONBLOCK); MUST(w&&r); for(int i=0;i<7;i++) CHECK(shr_write(w,"abc",3)==3);
  n=5; CHECK(shr_readv(r,b,100,v,&n)==15 && n==5); CHECK(shr_stat(r,&st,NULL)==0); CHECK(st.mr==5 && st.br==15); n=5; CHECK(shr_readv(r,b,100,v,&n)==6 && n==2); CHECK(shr_stat(r,&st,NULL)==0); CHECK(st.mr==7 && st.mw-st.mr==st.mu); return 0; }
''')
seed('c03-drop-two','C03','a batch of messages for which bytes and message slots run out at different messages',
 'drop mode makes room for bytes and then for slots again, dropping more messages than needed',
 [(S,'''  while ((niov > am+i) || (need > ab+z)) {
    z += mv[ p ].len;
    i++;
    p++;
    if (p == s->mm) p = 0;
  }
''','''  while (need > ab+z) {
    z += mv[ p ].len;
    i++;
    p++;
    if (p == s->mm) p = 0;
  }
  if (i && (niov > 1)) am = 0; 
  while ((niov > am+i) && (i < r->m)) {
    z += mv[ p ].len;
    i++;
    p++;
    if (p == s->mm) p = 0;
  }
''')],
r'''
int main(){ char b[100]; struct iovec v[2]; MUST(shr_init("r",10,SHR_DROP|SHR_MAXMSGS_2,(size_t)5)==0); shr*w=shr_open("r",SHR_WRONLY),*r=shr_open("r",SHR_RDONLY|SHR_NONBLOCK); MUST(w&&r);
  CHECK(shr_write(w,"aaaaa",5)==5); CHECK(shr_write(w,"bb",2)==2); CHECK(shr_write(w,"cc",2)==2); v[0].iov_base="d"; v[0].iov_len=1; v[1].iov_base="e"; v[1].iov_len=1; CHECK(shr_writev(w,v,2)==2);
  CHECK(shr_read(r,b,100)==2 && b[0]=='b'); CHECK(shr_read(r,b,100)==2 && b[0]=='c'); CHECK(shr_read(r,b,100)==1 && b[0]=='d'); CHECK(shr_read(r,b,100)==1 && b[0]=='e'); CHECK(shr_read(r,b,100)==0); return 0; }
''')
seed('c03-nonblock-farm','C03','a non-blocking writer to a full farm or drop ring when it is buffered',
 'a buffered non-blocking writer gets 0 from a full drop ring instead of discarding',
 [(S,'''    if (r->gflags & SHR_DROP) break;

    if (s->flags & SHR_NONBLOCK) {''','''    if ((r->gflags & SHR_DROP) &&
        !((s->flags & SHR_NONBLOCK) && s->c.vm && (iov == s->c.iov) && (r->m == r->mm))) break;

    if (s->flags & SHR_NONBLOCK) {''')],
r'''
int main(){ char b[100]; MUST(shr_init("r",100,SHR_DROP|SHR_MAXMSGS_2,(size_t)2)==0); shr*w=shr_open("r",SHR_WRONLY|SHR_NONBLOCK|SHR_BUFFERED),*r=shr_open("r",SHR_RDONLY|SHR_NONBLOCK); MUST(w&&r);
  CHECK(shr_write(w,"a",1)==1); CHECK(shr_write(w,"b",1)==1); CHECK(shr_flush(w,0)==2); CHECK(shr_write(w,"c",1)==1); CHECK(shr_flush(w,0)==1); CHECK(shr_read(r,b,100)==1 && b[0]=='b'); CHECK(shr_read(r,b,100)==1 && b[0]=='c'); return 0; }
''')
seed('c04-retry-counts-again','C04','a farm reader that fell behind first offers a buffer too small for the next message, then a large enough one',
 'the messages missed are counted again on every attempt to read with too small a buffer',
 [(S,'    s->md += (r->q - s->q); \n    s->q = r->q;\n','    s->md += (r->q - s->q); \n    if (mv[ r->q % r->mm ].len <= *l1) s->q = r->q;\n    slot = r->q % r->mm;\n    if (s->q < r->q) { *m1 = NULL; *l1 = mv[ slot ].len; *l2 = 0; return 1; }\n'),
  (S,'  char *m1, *m2;\n  ssize_t nr=0;\n','  char *m1, *m2;\n  ssize_t nr=0;\n  l1 = 0;\n'),
  (S,'    msg_ready = next_msg_info(s, &m1, &l1, &m2, &l2);\n    if (msg_ready) break;\n','    l1 = len;\n    msg_ready = next_msg_info(s, &m1, &l1, &m2, &l2);\n    if (msg_ready) break;\n')],
r'''
int main(){ char b[100]; MUST(shr_init("r",100,SHR_FARM|SHR_MAXMSGS_2,(size_t)2)==0); shr*w=shr_open("r",SHR_WRONLY),*r=shr_open("r",SHR_RDONLY|SHR_NONBLOCK); MUST(w&&r); for(int i=0;i<5;i++) CHECK(shr_write(w,"abc",3)==3);
  CHECK(shr_read(r,b,2)==-2); CHECK(shr_read(r,b,2)==-2); CHECK(shr_read(r,b,3)==3); CHECK(shr_read(r,b,3)==3); CHECK(shr_read(r,b,3)==0); CHECK(shr_farm_stat(r,0)==3); return 0; }
''')
seed('c17-sync-flag','C17','shr_open given the creation flag SHR_SYNC',
 'shr_open accepts an init-only flag',
 [(S,'  if (flags & (SHR_OPEN_FENCE-1))\n','  if (flags & (SHR_OPEN_FENCE-1) & ~SHR_SYNC)\n')],
r'''
int main(){ MUST(shr_init("r",100,0)==0); shr*w=shr_open("r",SHR_WRONLY); CHECK(w); CHECK(shr_open("r",SHR_WRONLY|SHR_DROP)==NULL); CHECK(shr_open("r",SHR_WRONLY|SHR_SYNC)==NULL); CHECK(shr_open("r",SHR_RDONLY|SHR_SYNC)==NULL); return 0; }
''')
seed('c21-no-excl','C21','two processes creating the same ring at once',
 'a creator that loses the race takes over the file the other one made, wiping a ring that is in use',
 [(S,'O_RDWR|O_CREAT|O_EXCL, CREAT_MODE','O_RDWR|O_CREAT, CREAT_MODE')],
r'''
/* the other creator acts between our unlink and our open */
static int on; int open(const char*f,int fl,...){ va_list a; va_start(a,fl); int m=va_arg(a,int); if(on&&(fl&O_CREAT)){ on=0; int p=fork(); if(p==0){ shr_init("r",100,0); shr*w=shr_open("r",SHR_WRONLY); _exit(w&&shr_write(w,"abc",3)==3?0:1); } int st; waitpid(p,&st,0); MUST(st==0); } return REAL(open)(f,fl,m); }
int main(){ char b[10]; MUST(shr_init("r",50,0)==0); on=1; int rc=shr_init("r",60,0); shr*r=shr_open("r",SHR_RDONLY|SHR_NONBLOCK); CHECK(r); ssize_t n=shr_read(r,b,10); fprintf(stderr,"%d %zd\n",rc,n);
  /* either the loser failed and the winner's ring holds its message, or the loser replaced the file as a whole */
  if(rc<0) CHECK(n==3); else { struct shr_stat st; CHECK(shr_stat(r,&st,NULL)==0); CHECK(st.bn==60 && n==0); CHECK(0 && "both creators claim the same file"); } return 0; }
''')
seed('c22-force-fd','C22','closing a reader that was opened with the ring already holding data',
 'the socket a reader sends its own wakeups through stays open when it was used',
 [(B,'    assert(w->selffd != -1);\n    close(w->selffd);\n','    assert(w->selffd != -1);\n    if (w->drain || (w->seqno == -1 && w->zero == 0)) close(w->selffd);\n'),(B,'    nr = send(w->selffd, &c, 1, MSG_DONTWAIT);\n','    w->zero = 1;\n    nr = send(w->selffd, &c, 1, MSG_DONTWAIT);\n')],
r'''
static int nfds(){ int n=0; DIR*d=opendir("/proc/self/fd"); while(readdir(d)) n++; closedir(d); return n; }
int main(){ MUST(shr_init("r",100,0)==0); shr*w=shr_open("r",SHR_WRONLY); MUST(w); CHECK(shr_write(w,"abc",3)==3); int a=nfds(); for(int i=0;i<5;i++){ shr*r=shr_open("r",SHR_RDONLY|SHR_NONBLOCK); CHECK(r); shr_close(r); } CHECK(nfds()==a); return 0; }
''')
seed('c13-force-own-wake','C13','clearing readiness with more wakeups pending than one receive takes',
 'forcing clear drains a limited number of wakeups, so the descriptor stays readable',
 [(B,'  } while (nr > 0);\n\n  rc = 0;\n\n done:\n  return rc;\n}\n\n/*\n * bw_force\n','  } while (nr == DRAIN_MSGS);\n\n  rc = 0;\n\n done:\n  return rc;\n}\n\n/*\n * bw_force\n'),(B,'    nr = recvmmsg(w->listenfd, w->drain, DRAIN_MSGS, MSG_DONTWAIT, NULL);\n','    nr = recvmmsg(w->listenfd, w->drain, w->h->wr[0].pid == w->h->wr[1].pid ? 3 : DRAIN_MSGS, MSG_DONTWAIT, NULL);\n')],
r'''
#include "bw.h"
int main(){ bw_handle*h=mmap(0,sizeof*h,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); MUST(h!=MAP_FAILED); memset(h,0,sizeof*h); int f1,f2; bw_t*a=bw_open(BW_WAIT,h,&f1),*b=bw_open(BW_WAIT,h,&f2),*k=bw_open(BW_WAKE,h); MUST(a&&b&&k);
  for(int i=0;i<7;i++) CHECK(bw_wake(k)==0); CHECK(bw_force(a,0)==0); struct pollfd p={f1,POLLIN},q={f2,POLLIN}; CHECK(poll(&p,1,0)==0); CHECK(poll(&q,1,0)==1); return 0; }
''')
MNT=TOOLSH+r'''
cat > p.c <<'X'
#define _GNU_SOURCE
#include <stdio.h>
#include <string.h>
#include <errno.h>
#include <sys/stat.h>
#include <sys/vfs.h>
static void rec(const char*f,const char*a,const char*b,const char*c){ FILE*o=fopen("log","a"); fprintf(o,"%s %s %s %s\n",f,a,b,c); fclose(o); }
/* nothing is mounted: calls are recorded. tmp, ram, huge are RAM disks, plain is a directory */
int mount(const char*s,const char*t,const char*ty,unsigned long f,const void*d){ rec("mount",t,ty,d?d:"-"); return 0; }
int umount(const char*t){ rec("umount",t,"",""); return 0; }
int chdir(const char*d){ return 0; }
int mkdir(const char*d,mode_t m){ rec("mkdir",d,"",""); return 0; }
int stat(const char*p,struct stat*s){ memset(s,0,sizeof*s); s->st_mode=S_IFDIR|0755; s->st_dev=strstr(p,"..")||strstr(p,"plain")?1:2; return 0; }
int statfs(const char*p,struct statfs*s){ memset(s,0,sizeof*s); s->f_type=strstr(p,"tmp")?0x01021994:strstr(p,"ram")?0x858458F6:strstr(p,"huge")?0x958458F6:1; s->f_bsize=4096; s->f_blocks=1000; s->f_bfree=250; return 0; }
X
gcc -w -shared -fPIC -o p.so p.c || exit 3
m(){ rm -f "$t/log"; LD_PRELOAD=$t/p.so $tool mount "$@" > "$t/out" 2>/dev/null; }
'''
seed('c25-stack-huge','C25','mounting over a directory that is a hugetlbfs mount',
 'a RAM disk is stacked on a hugetlbfs mount',
 [(T,'  if (is_mountpoint && (is_tmpfs || is_ramfs || is_hugefs)) {\n','  if (is_mountpoint && (is_tmpfs || is_ramfs || (is_hugefs && !cfg.size))) {\n')],None,MNT+r'''
for d in tmp ram huge; do m -t tmpfs -s 10m $d; [ -e log ] && exit 1; m $d; [ -e log ] && exit 1; done
m -t tmpfs -s 10m plain && grep -q 'mount plain tmpfs size=10485760' log
''')
seed('c25-first-subdir','C25','-d with several subdirectories',
 'only the first two subdirectories are made',
 [(T,'          while ((cfg.mount_mode == mnt_make_subdirs) && (optind < argc)) {\n            sub = argv[optind++];\n','          for (n=0; (cfg.mount_mode == mnt_make_subdirs) && (n < argc - optind); n++) {\n            sub = argv[optind++];\n')],None,MNT+r'''
m -d plain a; grep -q 'mkdir a' log || exit 1
m -d plain a b c d || exit 1; [ $(grep -c mkdir log) = 4 ]
''')
seed('c25-used-pct','C25','querying a RAM disk',
 'mount -q reports the free share of a small tmpfs as the used share',
 [(T,'  int used_pct = 100 - (sf.f_bfree * 100.0 / sf.f_blocks);\n','  int used_pct = (bytes < MB) ? (sf.f_bfree * 100.0 / sf.f_blocks) :\n                 100 - (sf.f_bfree * 100.0 / sf.f_blocks);\n')],None,MNT+r'''
m -q tmp || exit 1; grep -q '3 mb (75% used)' out || exit 1
sed -i 's/f_blocks=1000/f_blocks=100/; s/f_bfree=250/f_bfree=25/' p.c; gcc -w -shared -fPIC -o p.so p.c || exit 3
m -q tmp || exit 1; grep -q '400 kb (75% used)' out
''')
seed('c26-prefix','C26','a command with a delegate whose name begins with a built-in command',
 'commands that merely begin with "read" run the built-in command instead of their delegate',
 [(T,'  else if (!strcmp(cmd, "readhex"))   cfg.mode = mode_read_hex;\n','  else if (!strncmp(cmd, "readhex",7))   cfg.mode = mode_read_hex;\n')],None,TOOLSH+r'''
cp $tool ./st || exit 3; printf '#!/bin/sh\necho delegate "$@"\n' > st-readhexdump; chmod +x st-readhexdump; cp st-readhexdump st-foo
./st create -s 100 ring; echo hi | ./st write ring
[ "$(./st foo 1 2)" = "delegate 1 2" ] && [ "$(./st readhexdump ring x 2>/dev/null)" = "delegate ring x" ] && [ "$(./st read ring 2>/dev/null)" = hi ]
''')
seed('c26-stray-file','C26','writefile whose ring argument is followed by further arguments',
 'writefile writes to the last argument rather than the ring named first',
 [(T,'      cfg.wfile = strdup(argv[1]);\n      argv++;\n      argc--;\n','      cfg.wfile = strdup(argv[1]);\n      argv++;\n      argc--;\n      if (argc > 2) argv[1] = argv[argc-1];\n')],None,TOOLSH+r'''
$tool create -s 100 one two || exit 3; printf data > f
$tool writefile f one || exit 1; [ "$($tool read one 2>/dev/null)" = data ] || exit 1
$tool writefile f one two 2>/dev/null; [ "$($tool read one 2>/dev/null)" = data ] && [ -z "$($tool read two 2>/dev/null)" ]
''')
