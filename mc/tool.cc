// The tool's operating system: streams, standard input and output, signals; and the exploration.
#include "tool.h"
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cerrno>
#include <csignal>
#include <ctime>
#include <algorithm>
#include <unordered_set>
#include <fcntl.h>
#include <netdb.h>
#include <elf.h>
#include <unistd.h>
#include <poll.h>
#include <sys/epoll.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/signalfd.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/statfs.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <netdb.h>
TG *G; TScen *S;
extern "C" { int sim_connect(int,const struct sockaddr*,socklen_t); int tool_main(int,char**); ssize_t sim_read(int,void*,size_t); ssize_t sim_write(int,const void*,size_t); int sim_close(int); ssize_t sim_recv(int,void*,size_t,int); ssize_t sim_send(int,const void*,size_t,int); void*sim_memcpy(void*,const void*,size_t); void*sim_memmove(void*,const void*,size_t); void*sim_malloc(size_t); void*sim_realloc(void*,size_t); int*sim___errno_location(); int sim_open(const char*,int,...); ssize_t sim_readlink(const char*,char*,size_t); void* sim_mmap(void*,size_t,int,int,int,off_t); int sim_munmap(void*,size_t); }
// ---------------------------------------------------------------- one execution's choices (shared with the explorer)
struct Shared { uint32_t n; uint16_t ch[4000], ar[4000]; uint32_t nprefix; int verbose; char msg[600]; uint64_t outcome; uint64_t sys, events; int ended; uint32_t pruned; };
static Shared *X; static uint64_t *V; static const size_t VN=1u<<25; static bool g_merge; static int g_scen; // visited states of all scenarios, shared by all workers
int pick(int n,const char*what){ if(n<=1) return 0; if(X->n>=4000){ sim_violation("livelock: more than 4000 environment choices"); return 0; }
  uint32_t i=X->n++; if(i>=X->nprefix) X->ch[i]=0; if(X->ch[i]>=n) X->ch[i]=n-1; X->ar[i]=n; if(X->verbose) printf("  choice %u: %s: %d of %d\n",i,what,X->ch[i],n); return X->ch[i]; }
static void note(const char*f,...){ if(!X->verbose) return; va_list a; va_start(a,f); printf("  "); vprintf(f,a); printf("\n"); va_end(a); }
// ---------------------------------------------------------------- object bounds of the tool's buffers
extern "C" { __attribute__((weak)) extern char __start_tooldata[],__stop_tooldata[],__start_toolbss[],__stop_toolbss[]; }
struct Sym { uintptr_t a; size_t n; std::string name; bool tool; }; static std::vector<Sym> syms;
static void load_syms(){ int fd=open("/proc/self/exe",O_RDONLY); struct stat st; if(fd<0||fstat(fd,&st)<0) return; char*m=(char*)mmap(0,st.st_size,PROT_READ,MAP_PRIVATE,fd,0); close(fd); if(m==MAP_FAILED) return; Elf64_Ehdr*e=(Elf64_Ehdr*)m; Elf64_Shdr*sh=(Elf64_Shdr*)(m+e->e_shoff);
  for(int i=0;i<e->e_shnum;i++) if(sh[i].sh_type==SHT_SYMTAB){ Elf64_Sym*s=(Elf64_Sym*)(m+sh[i].sh_offset); const char*str=m+sh[sh[i].sh_link].sh_offset; for(size_t k=0;k<sh[i].sh_size/sizeof *s;k++) if(ELF64_ST_TYPE(s[k].st_info)==STT_OBJECT&&s[k].st_size&&s[k].st_value) syms.push_back({(uintptr_t)s[k].st_value,(size_t)s[k].st_size,str+s[k].st_name,false}); }
  munmap(m,st.st_size); std::sort(syms.begin(),syms.end(),[](const Sym&a,const Sym&b){return a.a<b.a;}); for(auto&y:syms) y.tool=(y.a>=(uintptr_t)__start_tooldata&&y.a<(uintptr_t)__stop_tooldata)||(y.a>=(uintptr_t)__start_toolbss&&y.a<(uintptr_t)__stop_toolbss); }
static void range(const void*p,size_t n,const char*what){ uintptr_t a=(uintptr_t)p; if(!n) return; auto it=std::upper_bound(syms.begin(),syms.end(),a,[](uintptr_t v,const Sym&s){return v<s.a;}); if(it==syms.begin()) return; --it; if(a<it->a+it->n&&a+n>it->a+it->n) sim_violation("%s of %zu bytes runs past the end of %s",what,n,it->name.c_str()); }
// ---------------------------------------------------------------- streams
static void sys(){ X->sys++; Proc&p=K->p[g_cur]; if(++p.nsys>(uint32_t)SC.max_sys) sim_violation("livelock: more than %d system calls",SC.max_sys); }
static int fail(int e){ return sim_errno_set(e); }
static void at(int kind){ sys(); K->p[g_cur].pk=kind; K->p[g_cur].pobj=0; actor_yield(PS_RUN); }
static Desc*td(int fd){ Proc&p=K->p[g_cur]; if(fd<3||fd>=p.maxfd||p.fds[fd]<0) return nullptr; return &K->d[p.fds[fd]]; }
bool conn_open(int obj){ for(int i=0;i<K->maxdesc;i++) if(K->d[i].ref>0&&K->d[i].type==D_STREAM&&K->d[i].obj==obj) return true; return false; }
bool tool_alive(){ return !G->exited; }
int tool_stream_events(int o){
  if(o==OBJ_LISTEN){ for(auto&c:G->conn) if(c.st==0) return EPOLLIN; return 0; }
  if(o==OBJ_SIG) return G->sigs.empty()?0:EPOLLIN;
  if(o==OBJ_SUB){ int r=EPOLLOUT; if(G->netpos<S->net.size()) r|=EPOLLIN; else if(S->netend==1) r|=EPOLLIN; else if(S->netend==2) r|=EPOLLIN|EPOLLERR|EPOLLHUP; return r; }
  Conn&c=G->conn[o-1]; int r=EPOLLOUT; if(c.in||c.peer) r|=EPOLLIN; if(c.peer==2) r|=EPOLLERR|EPOLLHUP; return r; }
static size_t cut(size_t n,bool write){ // length of a possibly short transfer of n bytes
  int &used=write?G->shorts:G->segs, lim=write?S->shortw:S->segs; if(n<=1||used>=lim) return n;
  std::vector<size_t> v; if(S->cuts.empty()){ if(n<=24) for(size_t k=n-1;k>=1;k--) v.push_back(k); else { v={1,2,3,4,5,n/2,n-2,n-1}; } } else for(size_t k:S->cuts) if(k<n) v.push_back(k);
  int a=pick(v.size()+1,write?"short write":"short read"); if(!a) return n; used++; return v[a-1]; }
static bool inject(const char*what){ if(G->werrs>=S->werr) return false; if(!pick(2,what)) return false; G->werrs++; return true; }
static ssize_t out_write(const void*b,size_t n){ range(b,n,"write"); if(n==0) return 0; if(G->outbad||inject("output fails")){ G->outbad=true; return fail(ENOSPC); } size_t k=cut(n,true); G->out.append((const char*)b,k); return k; }
ssize_t tool_write_(int o,const void*b,size_t n,int fl){
  range(b,n,"write"); if(o==OBJ_SIG||o==OBJ_LISTEN) return fail(EINVAL); at(40);
  if(o==OBJ_SUB) return n;
  Conn&c=G->conn[o-1]; if(n==0) return 0;
  bool dead=c.peer==2||c.failed; if(!dead&&c.peer==1){ if(pick(2,"the reset answers this write")) dead=true; }
  if(!dead&&c.peer==0&&inject("connection breaks during write")){ c.peer=2; dead=true; }
  if(dead){ c.failed=true; c.peer=2; note("write of %zu bytes to client %d fails",n,o); if(!G->sigmask_pipe&&!(fl&MSG_NOSIGNAL)){ sim_violation("killed by SIGPIPE writing to a client"); } return fail(c.resetseen?EPIPE:ECONNRESET); }
  size_t k=cut(n,true); c.out.append((const char*)b,k); note("write %zu of %zu bytes to client %d",k,n,o); return k; }
ssize_t tool_read_(int o,void*b,size_t n){
  range(b,n,"read"); at(41);
  if(o==OBJ_SIG){ while(G->sigs.empty()){ Proc&p=K->p[g_cur]; p.pobj=-1; int di=-1; for(int i=0;i<K->maxdesc;i++) if(K->d[i].ref>0&&K->d[i].type==D_STREAM&&K->d[i].obj==o) di=i; p.pobj2=di; p.ptmo=-1; actor_yield(PS_EPW); }
    if(n<sizeof(signalfd_siginfo)) return fail(EINVAL); signalfd_siginfo s; memset(&s,0,sizeof s); s.ssi_signo=G->sigs[0]; G->sigs.erase(G->sigs.begin()); memcpy(b,&s,sizeof s); return sizeof s; }
  if(o==OBJ_LISTEN) return fail(ENOTCONN);
  while(!(tool_stream_events(o)&EPOLLIN)){ Proc&p=K->p[g_cur]; p.pobj=-1; int di=-1; for(int i=0;i<K->maxdesc;i++) if(K->d[i].ref>0&&K->d[i].type==D_STREAM&&K->d[i].obj==o) di=i; p.pobj2=di; p.ptmo=-1; actor_yield(PS_EPW); }
  if(o==OBJ_SUB){ size_t left=S->net.size()-G->netpos; if(left==0){ if(S->netend==2){ note("connection reset"); G->neteof_seen=true; return fail(ECONNRESET);} note("end of stream"); G->neteof_seen=true; return 0; } size_t k=std::min(left,n); if(k==0) return 0; k=cut(k,false); memcpy(b,S->net.data()+G->netpos,k); G->netpos+=k; note("read %zu bytes",k); return k; }
  Conn&c=G->conn[o-1]; if(c.peer==2&&!c.resetseen){ c.resetseen=true; c.in=0; return fail(ECONNRESET); } size_t k=std::min((size_t)c.in,n); memset(b,'c',k); c.in-=k; return k; }
extern "C" ssize_t tool_read(int o,void*b,size_t n){ return tool_read_(o,b,n); }
extern "C" ssize_t tool_write(int o,const void*b,size_t n){ if(o==-1){ sys(); return out_write(b,n); } if(o==-2) return n; return tool_write_(o,b,n,0); }
extern "C" int tool_socket(){ return sim_stream_fd(g_cur,OBJ_LISTEN); }      // becomes OBJ_SUB on connect
extern "C" int tool_connect(int o){ (void)o; at(42); if(S->connfail) return fail(ECONNREFUSED); for(int i=0;i<K->maxdesc;i++) if(K->d[i].ref>0&&K->d[i].type==D_STREAM&&K->d[i].obj==OBJ_LISTEN) K->d[i].obj=OBJ_SUB; G->subconn=true; return 0; }
extern "C" int tool_open(const char*n,int fl){ (void)fl; if((!strncmp(n,"/proc/",6)||!strncmp(n,"/sys/",5))&&sim_file_find(n)<0){ sys(); return fail(ENOENT); } return -2; }
// ---------------------------------------------------------------- functions the tool's object is linked to
static bool std_sink(FILE*f){ return f==stdout; }
static void flush_out(){ while(!G->obuf.empty()){ if(G->outbad||inject("output fails")){ G->outbad=true; return; } // a failing flush may have written part of the buffer
    size_t k=G->obuf.size(); if(G->werrs<S->werr&&k>1&&pick(2,"output fails half way")){ G->werrs++; k=pick(2,"where")?k-1:k/2; G->out.append(G->obuf,0,k); G->obuf.erase(0,k); G->outbad=true; return; }
    G->out+=G->obuf; G->obuf.clear(); } }
static void put(const char*b,size_t n){ G->obuf.append(b,n); if(G->outbad){ G->obuf.clear(); return; } if(G->obuf.size()>=4096){ sys(); flush_out(); } }
static void tool_exit(int c){ sys(); flush_out(); G->exited=1; G->code=c&255; for(;;) actor_yield(PS_DEAD); }
extern "C" {
int simt_vfprintf(FILE*f,const char*fm,va_list ap){ va_list a2; va_copy(a2,ap); int n=vsnprintf(nullptr,0,fm,ap); if(n>=0&&(std_sink(f)||X->verbose)){ std::string t(n+1,0); vsnprintf(&t[0],n+1,fm,a2); t.resize(n); if(std_sink(f)) put(t.data(),n); else note("stderr: %s",t.c_str()); } va_end(a2); return n; }
int simt_vprintf(const char*fm,va_list ap){ return simt_vfprintf(stdout,fm,ap); }
int simt_printf(const char*fm,...){ va_list a; va_start(a,fm); int r=simt_vfprintf(stdout,fm,a); va_end(a); return r; }
int simt_fprintf(FILE*f,const char*fm,...){ va_list a; va_start(a,fm); int r=simt_vfprintf(f,fm,a); va_end(a); return r; }
int simt___printf_chk(int,const char*fm,...){ va_list a; va_start(a,fm); int r=simt_vfprintf(stdout,fm,a); va_end(a); return r; }
int simt___fprintf_chk(FILE*f,int,const char*fm,...){ va_list a; va_start(a,fm); int r=simt_vfprintf(f,fm,a); va_end(a); return r; }
int simt___vfprintf_chk(FILE*f,int,const char*fm,va_list ap){ return simt_vfprintf(f,fm,ap); }
int simt_dprintf(int fd,const char*fm,...){ va_list a; va_start(a,fm); char*t=nullptr; int n=vasprintf(&t,fm,a); va_end(a); if(n>0) n=sim_write(fd,t,n); free(t); return n; }
int simt_fputs(const char*s,FILE*f){ if(std_sink(f)) put(s,strlen(s)); return 1; }
int simt_puts(const char*s){ put(s,strlen(s)); put("\n",1); return 1; }
int simt_fputc(int c,FILE*f){ char b=c; if(std_sink(f)) put(&b,1); return (unsigned char)c; }
int simt_putc(int c,FILE*f){ return simt_fputc(c,f); }
int simt__IO_putc(int c,FILE*f){ return simt_fputc(c,f); }
int simt_putchar(int c){ return simt_fputc(c,stdout); }
size_t simt_fwrite(const void*b,size_t a,size_t n,FILE*f){ range(b,a*n,"fwrite"); if(std_sink(f)) put((const char*)b,a*n); return G->outbad&&std_sink(f)&&0?0:n; }
int simt_fflush(FILE*f){ sys(); if(f&&!std_sink(f)) return 0; flush_out(); if(G->outbad){ fail(ENOSPC); return EOF; } return 0; }
int simt_fclose(FILE*f){ return simt_fflush(f); }
int simt_ferror(FILE*f){ return std_sink(f)?G->outbad:0; }
int simt_feof(FILE*f){ return f==stdin?G->inpos>=S->in.size():0; }
void simt_clearerr(FILE*){}
int simt_fileno(FILE*f){ return f==stdin?0:f==stdout?1:2; }
void simt_setbuf(FILE*,char*){} int simt_setvbuf(FILE*,char*,int,size_t){ return 0; }
void simt_perror(const char*){}
int simt_fgetc(FILE*f){ if(f!=stdin||G->inpos>=S->in.size()) return EOF; return (unsigned char)S->in[G->inpos++]; }
int simt_getc(FILE*f){ return simt_fgetc(f); } int simt__IO_getc(FILE*f){ return simt_fgetc(f); } int simt_getchar(){ return simt_fgetc(stdin); }
int simt_ungetc(int c,FILE*f){ if(f==stdin&&G->inpos>0&&c!=EOF){ G->inpos--; return c; } return EOF; }
char*simt_fgets(char*b,int n,FILE*f){ range(b,n,"fgets"); int i=0; while(i<n-1){ int c=simt_fgetc(f); if(c==EOF) break; b[i++]=c; if(c=='\n') break; } if(i==0) return nullptr; b[i]=0; return b; }
size_t simt_fread(void*b,size_t a,size_t n,FILE*f){ range(b,a*n,"fread"); size_t want=a*n,i=0; while(i<want){ int c=simt_fgetc(f); if(c==EOF) break; ((char*)b)[i++]=c; } return a?i/a:0; }
ssize_t simt_getdelim(char**l,size_t*n,int d,FILE*f){ size_t i=0; if(!*l){ *n=0; } for(;;){ int c=simt_fgetc(f); if(c==EOF) break; if(i+2>*n){ size_t m=*n?*n*2:120; char*q=(char*)sim_realloc(*l,m); if(!q) return -1; *l=q; *n=m; } (*l)[i++]=c; if(c==d) break; } if(i==0) return -1; (*l)[i]=0; return i; }
ssize_t simt_getline(char**l,size_t*n,FILE*f){ return simt_getdelim(l,n,'\n',f); }
ssize_t simt___getdelim(char**l,size_t*n,int d,FILE*f){ return simt_getdelim(l,n,d,f); }
void simt_exit(int c){ tool_exit(c); } void simt__exit(int c){ G->obuf.clear(); tool_exit(c); } void simt__Exit(int c){ simt__exit(c); }
void simt_abort(){ sim_violation("abort() called"); }
ssize_t simt_read(int fd,void*b,size_t n){ range(b,n,"read"); if(fd==0){ sys(); size_t k=std::min(n,S->in.size()-G->inpos); if(k>0) k=cut(k,false); memcpy(b,S->in.data()+G->inpos,k); G->inpos+=k; return k; } return sim_read(fd,b,n); }
ssize_t simt_write(int fd,const void*b,size_t n){ range(b,n,"write"); Desc*d=td(fd); if(d&&d->type==D_FILE&&n){ sys(); if(inject("file write fails")) return fail(ENOSPC); n=cut(n,true); } return sim_write(fd,b,n); }
ssize_t simt_pwrite(int fd,const void*b,size_t n,off_t o){ Desc*d=td(fd); if(!d||d->type!=D_FILE) return fail(ESPIPE); d->off=o; return simt_write(fd,b,n); }
ssize_t simt_send(int fd,const void*b,size_t n,int fl){ Desc*d=td(fd); if(d&&d->type==D_STREAM) return tool_write_(d->obj,b,n,fl); return sim_send(fd,b,n,fl); }
ssize_t simt_writev(int fd,const struct iovec*v,int n){ std::string t; for(int i=0;i<n;i++){ range(v[i].iov_base,v[i].iov_len,"writev"); t.append((const char*)v[i].iov_base,v[i].iov_len); } return simt_write(fd,t.data(),t.size()); }
ssize_t simt_sendmsg(int fd,const struct msghdr*m,int fl){ std::string t; for(size_t i=0;i<m->msg_iovlen;i++) t.append((const char*)m->msg_iov[i].iov_base,m->msg_iov[i].iov_len); return simt_send(fd,t.data(),t.size(),fl); }
ssize_t simt_readv(int fd,const struct iovec*v,int n){ ssize_t tot=0; for(int i=0;i<n;i++){ if(!v[i].iov_len) continue; ssize_t r=simt_read(fd,v[i].iov_base,v[i].iov_len); if(r<0) return tot?tot:-1; tot+=r; if((size_t)r<v[i].iov_len) break; } return tot; }
ssize_t simt_recv(int fd,void*b,size_t n,int fl){ range(b,n,"recv"); Desc*d=td(fd); if(d&&d->type==D_STREAM&&(fl&MSG_DONTWAIT)&&!(tool_stream_events(d->obj)&EPOLLIN)){ sys(); return fail(EAGAIN); } return sim_recv(fd,b,n,fl); }
void*simt_memcpy(void*d,const void*s,size_t n){ range(d,n,"memcpy to"); range(s,n,"memcpy from"); return sim_memcpy(d,s,n); }
void*simt_memmove(void*d,const void*s,size_t n){ range(d,n,"memmove to"); range(s,n,"memmove from"); return sim_memmove(d,s,n); }
void*simt_memset(void*d,int c,size_t n){ range(d,n,"memset"); return memset(d,c,n); }
int simt_accept4(int fd,struct sockaddr*sa,socklen_t*len,int){ Desc*d=td(fd); if(!d||d->type!=D_STREAM||d->obj!=OBJ_LISTEN) return fail(EINVAL); at(43); for(size_t i=0;i<G->conn.size();i++) if(G->conn[i].st==0){ G->conn[i].st=1; G->conn[i].other=false; for(size_t k=0;k<i;k++) if(conn_open(k+1)) G->conn[i].other=true; if(sa){ struct sockaddr_in a; memset(&a,0,sizeof a); a.sin_family=AF_INET; a.sin_addr.s_addr=htonl(0x7f000001); memcpy(sa,&a,std::min((socklen_t)sizeof a,*len)); *len=sizeof a; } note("accept client %zu",i+1); return sim_stream_fd(g_cur,i+1); } return fail(EAGAIN); }
int simt_accept(int fd,struct sockaddr*sa,socklen_t*len){ return simt_accept4(fd,sa,len,0); }
static std::string addr_text(const struct sockaddr*a,socklen_t n){ if(!a||n<sizeof(struct sockaddr_in)||a->sa_family!=AF_INET) return "?"; const struct sockaddr_in*i=(const struct sockaddr_in*)a; uint32_t h=ntohl(i->sin_addr.s_addr); char b[40]; snprintf(b,sizeof b,"%u.%u.%u.%u:%u",h>>24,h>>16&255,h>>8&255,h&255,ntohs(i->sin_port)); return b; }
int simt_bind(int fd,const struct sockaddr*a,socklen_t n){ sys(); if(!td(fd)) return fail(EBADF); if((S->netfail&&inject("bind fails"))||(S->timewait&&!G->reuse)) return fail(EADDRINUSE); std::string t=addr_text(a,n); if(t=="?") return fail(EINVAL); G->addr+="bind "+t+";"; G->bound=true; return 0; }
int simt_connect(int fd,const struct sockaddr*a,socklen_t n){ Desc*d=td(fd); if(d&&d->type==D_STREAM){ std::string t=addr_text(a,n); if(t=="?") return fail(EINVAL); G->addr+="connect "+t+";"; if(S->netfail&&inject("connect fails")) return fail(ECONNREFUSED); } return sim_connect(fd,a,n); }
int simt_listen(int,int){ sys(); if(S->netfail&&inject("listen fails")) return fail(EADDRINUSE); G->addr+="listen;"; G->listening=true; return 0; }
int simt_setsockopt(int,int l,int o,const void*v,socklen_t n){ sys(); if(l==SOL_SOCKET&&(o==SO_REUSEADDR||o==SO_REUSEPORT)&&n>=sizeof(int)) G->reuse=*(const int*)v!=0; return 0; } int simt_getsockopt(int,int,int,void*v,socklen_t*){ *(int*)v=0; return 0; }
int simt_shutdown(int,int){ sys(); return 0; }
int simt_signalfd(int,const sigset_t*,int){ sys(); return sim_stream_fd(g_cur,OBJ_SIG); }
unsigned simt_alarm(unsigned){ sys(); G->alarms++; return 0; }
int simt_sigprocmask(int how,const sigset_t*s,sigset_t*){ sys(); if(s){ bool m=sigismember(s,SIGPIPE); if(how==SIG_UNBLOCK){ if(m) G->sigmask_pipe=false; } else if(how==SIG_BLOCK){ if(m) G->sigmask_pipe=true; } else G->sigmask_pipe=m; } return 0; }
int simt_pthread_sigmask(int how,const sigset_t*s,sigset_t*o){ return simt_sigprocmask(how,s,o); }
void*simt_signal(int s,void*h){ if(s==SIGPIPE) G->sigmask_pipe=h==(void*)SIG_IGN; return nullptr; }
int simt_sigaction(int s,const struct sigaction*a,struct sigaction*){ if(s==SIGPIPE&&a) G->sigmask_pipe=a->sa_handler==SIG_IGN; return 0; }
static int host_addrs(const char*n,uint32_t*a){ struct in_addr q; if(!strcmp(n,"localhost")){ a[0]=htonl(0x7f000001); return 1; } if(!strcmp(n,"multi")){ a[0]=htonl(0x0a010203); a[1]=htonl(0x0a010204); return 2; } if(*n&&inet_aton(n,&q)){ a[0]=q.s_addr; return 1; } return 0; }
struct hostent*simt_gethostbyname(const char*n){ sys(); static uint32_t ad[2]; static char*al[3]; static struct hostent h; int k=host_addrs(n,ad); if(!k) return nullptr; for(int i=0;i<3;i++) al[i]=i<k?(char*)&ad[i]:nullptr; h.h_name=(char*)"host"; h.h_addrtype=AF_INET; h.h_length=4; h.h_addr_list=al; return &h; }
struct hostent*simt_gethostbyname2(const char*n,int f){ return f==AF_INET?simt_gethostbyname(n):nullptr; }
int simt_getaddrinfo(const char*n,const char*sv,const struct addrinfo*hint,struct addrinfo**out){ sys(); uint32_t ad[2]={htonl(hint&&(hint->ai_flags&AI_PASSIVE)?0u:0x7f000001u),0}; int k=n?host_addrs(n,ad):1; if(!k||(hint&&hint->ai_family==AF_INET6)) return EAI_NONAME; unsigned long port=0; if(sv){ char*e; port=strtoul(sv,&e,10); if(!*sv||*e||port>65535) return EAI_SERVICE; }
  struct addrinfo*first=nullptr,**l=&first; for(int i=0;i<k;i++){ struct addrinfo*a=(struct addrinfo*)calloc(1,sizeof *a+sizeof(struct sockaddr_in)); struct sockaddr_in*s=(struct sockaddr_in*)(a+1); s->sin_family=AF_INET; s->sin_port=htons(port); s->sin_addr.s_addr=ad[i]; a->ai_family=AF_INET; a->ai_socktype=hint?hint->ai_socktype:SOCK_STREAM; a->ai_addr=(struct sockaddr*)s; a->ai_addrlen=sizeof *s; *l=a; l=&a->ai_next; } *out=first; return 0; }
void simt_freeaddrinfo(struct addrinfo*a){ while(a){ struct addrinfo*n=a->ai_next; free(a); a=n; } }
// mounts: only what succeeded is recorded, with paths as seen from the first working directory
static int dirk(const char*a); static std::string full(const char*a){ return a[0]=='/'||G->cwd.empty()?a:G->cwd+"/"+a; }
int simt_mount(const char*,const char*b,const char*t,unsigned long,const void*d){ sys(); int k=dirk(full(b).c_str()); if(k<0) return fail(ENOENT); if(k==9) return fail(ENOTDIR); if(inject("mount fails")) return fail(EPERM); G->mounts+="mount "+full(b)+" "+t+" "+(d&&*(const char*)d?(const char*)d:"-")+"\n"; return 0; }
int simt_umount(const char*a){ sys(); int k=dirk(full(a).c_str()); if(k<0) return fail(ENOENT); if(k!=1&&k!=2&&k!=4&&k!=5) return fail(EINVAL); if(inject("umount fails")) return fail(EBUSY); G->mounts+="umount "+full(a)+"\n"; return 0; }
int simt_umount2(const char*a,int){ return simt_umount(a); }
int simt_mkdir(const char*a,mode_t){ sys(); if(inject("mkdir fails")) return fail(EEXIST); G->mounts+="mkdir "+full(a)+"\n"; return 0; }
int simt_chdir(const char*a){ sys(); int k=dirk(full(a).c_str()); if(k<0) return fail(ENOENT); if(k==9) return fail(ENOTDIR); if(inject("chdir fails")) return fail(EACCES); G->cwd=full(a); return 0; }
static bool runnable(const char*a){ for(auto&e:S->execs) if(e==a) return true; return false; }
int simt_execve(const char*a,char*const*av,char*const*){ sys(); if(!runnable(a)) return fail(ENOENT); if(S->noexec) return fail(EACCES); G->execd=a; for(;av&&*av;av++) G->execd+=std::string("|")+*av; tool_exit(99); return 0; }
int simt_execv(const char*a,char*const*av){ return simt_execve(a,av,nullptr); }
int simt_access(const char*a,int m){ sys(); if(!runnable(a)) return sim_file_find(a)>=0||dirk(full(a).c_str())>=0?0:fail(ENOENT); return (m&X_OK)&&S->noexec?fail(EACCES):0; }
ssize_t simt_readlink(const char*,char*b,size_t n){ sys(); range(b,n,"readlink"); size_t k=std::min(S->self.size(),n); memcpy(b,S->self.data(),k); return k; }
// the only directories: d0 (ordinary) d1 (tmpfs mount) d2 (ramfs mount) d3 (tmpfs but not a mount point) d4 (some other mount) d5 (hugetlbfs mount); f0 is a file
static int dirk(const char*a){ if(a[0]=='d'&&a[1]>='0'&&a[1]<='5'&&(!a[2]||!strcmp(a+2,"/..")||!strcmp(a+2,"/"))) return a[1]-'0'; if(!strcmp(a,"f0")) return 9; return -1; }
int sim_stat(const char*,struct stat*);
int simt_stat(const char*a,struct stat*st){ sys(); int k=dirk(a); if(k<0) return sim_stat(a,st); memset(st,0,sizeof *st); st->st_mode=k==9?S_IFREG|0644:S_IFDIR|0755; bool up=strlen(a)>3; bool mnt=k==1||k==2||k==4||k==5; st->st_dev=(!up&&mnt)?10+k:1; return 0; }
int simt_statfs(const char*a,struct statfs*f){ sys(); int k=dirk(a); if(k<0) return fail(ENOENT); memset(f,0,sizeof *f); f->f_type=k==1||k==3?0x01021994:k==2?0x858458F6:k==5?0x958458F6:0xef53; f->f_bsize=S->fsbs; f->f_blocks=S->fsblocks; f->f_bfree=S->fsfree; return 0; }
unsigned simt_sleep(unsigned){ sys(); return 0; } int simt_usleep(unsigned){ sys(); return 0; }
}
// ---------------------------------------------------------------- running one execution
static std::function<void()> g_job[NPROC]; static std::vector<std::vector<char>> g_av; static std::vector<char*> g_argv;
static void actor_main(int p){ if(p==0) tool_exit(tool_main((int)g_argv.size()-1,g_argv.data())); for(;;){ g_job[p](); actor_yield(PS_OPDONE); } }
void run_env(int p,std::function<void()> f){ g_job[p]=f; for(;;){ sim_resume(p); if(g_viol) return; uint8_t st=K->p[p].st; if(st==PS_OPDONE) break; if(st==PS_CHOICE) continue; if(!sim_enabled(p)){ snprintf(X->msg,sizeof X->msg,"harness: process %d blocked",p); g_viol=true; snprintf(g_violmsg,sizeof g_violmsg,"harness: process %d blocked",p); return; } } K->p[p].nsys=0; }
void run_pure(std::function<void()> f){ static Snap s; sim_save(s); f(); if(!g_viol) sim_restore(s); }
static uint64_t mixh(uint64_t h,const std::string&s){ for(unsigned char c:s) h=(h^c)*1099511628211ull; return (h^0xff)*1099511628211ull; }
// everything that determines the future of the execution
uint64_t tool_scen_state();
static uint64_t state_hash(const std::vector<size_t>&pos){ H128 h=sim_hash(); for(size_t p:pos) h=hash_bytes(&p,sizeof p,h);
  for(auto&y:syms) if(y.name.empty()==false&&y.tool) h=hash_bytes((void*)y.a,std::min<size_t>(y.n,65536),h);
  auto str=[&](const std::string&t){ size_t n=t.size(); h=hash_bytes(&n,sizeof n,h); if(n) h=hash_bytes(t.data(),n,h); };
  for(auto&c:G->conn){ int v[]={c.st,c.peer,c.in,c.failed,c.other,c.resetseen}; h=hash_bytes(v,sizeof v,h); str(c.out); } str(G->out); str(G->obuf); str(G->mounts); str(G->addr);
  for(int g:G->sigs) h=hash_bytes(&g,sizeof g,h); size_t v[]={(size_t)g_scen,G->conn.size(),G->outbad,(size_t)G->werrs,(size_t)G->shorts,(size_t)G->segs,G->inpos,G->term,G->netpos,G->neteof_seen,G->sigmask_pipe,G->bound,G->subconn,G->listening,tool_scen_state()}; h=hash_bytes(v,sizeof v,h); uint64_t r=h.a^(h.b*0x9E3779B97F4A7C15ull); return r?r:1; }
static bool visited(uint64_t h){ for(size_t i=h&(VN-1),k=0;k<64;k++,i=(i+1)&(VN-1)){ uint64_t o=__atomic_load_n(&V[i],__ATOMIC_RELAXED); if(o==h) return true; if(!o){ if(__atomic_compare_exchange_n(&V[i],&o,h,false,__ATOMIC_RELAXED,__ATOMIC_RELAXED)) return false; if(o==h) return true; } } return false; }
static void execute(TScen&sc){
  S=&sc; static TG g; g=TG(); G=&g; SC=SimCfg(); SC.micro=true; SC.epchoice=true; SC.max_sys=6000;
  if(sc.args) sc.argv=sc.args(); g_av.clear(); g_argv.clear(); for(auto&a:sc.argv) g_av.push_back(std::vector<char>(a.c_str(),a.c_str()+a.size()+1)); for(auto&a:g_av) g_argv.push_back(a.data()); g_argv.push_back(nullptr);
  sim_reset(4); g_actor_main=actor_main; extern int opterr; opterr=0;
  if(sc.setup) sc.setup(); if(g_viol){ snprintf(X->msg,sizeof X->msg,"%s",g_violmsg); return; }
  std::vector<size_t> pos(sc.threads.size(),0);
  for(;;){
    std::vector<int> opt; bool en=sim_enabled(0); uint8_t st=K->p[0].st; if(en||st==PS_IDLE) opt.push_back(-1);
    bool may=st!=PS_CHOICE&&st!=PS_IDLE&&(st==PS_EPW||(sc.everywhere&&sim_lockcount(0)==0));
    if(may) for(size_t t=0;t<sc.threads.size();t++) if(pos[t]<sc.threads[t].size()){ auto&e=sc.threads[t][pos[t]]; if(!e.guard||e.guard()) opt.push_back(t); }
    if(opt.empty()){ G->quiet=true; break; }
    bool node=opt.size()>1||(st==PS_CHOICE&&K->p[0].nalt>1);
    if(node&&g_merge&&!sc.big&&X->n>=X->nprefix&&visited(state_hash(pos))){ X->pruned=1; X->ended=1; return; }
    int a=opt[pick(opt.size(),"who")]; 
    if(a<0){ if(st==PS_CHOICE) K->p[0].alt=pick(K->p[0].nalt,"readiness order"); sim_resume(0); if(g_viol) break; if(G->exited) break; }
    else { auto&e=sc.threads[a][pos[a]++]; note("event: %s",e.name.c_str()); e.fn(); X->events++; if(g_viol) break; }
  }
  if(!g_viol&&G->exited){ note("tool exits with %d",G->code); if(!sim_heap_check(0)) sim_violation("heap buffer overflow in the tool"); sim_kill(0); }
  if(!g_viol){ std::string e=sc.oracle?sc.oracle():""; if(!e.empty()&&!g_viol){ g_viol=true; snprintf(g_violmsg,sizeof g_violmsg,"%s",e.c_str()); } }
  if(g_viol) snprintf(X->msg,sizeof X->msg,"%s",g_violmsg[0]?g_violmsg:"?");
  uint64_t h=1469598103934665603ull; h=mixh(h,G->out); for(auto&c:G->conn){ h=mixh(h,c.out); h=h*31+c.st*7+c.peer*3+c.failed; } h=h*31+G->exited*2+G->code; h=h*31+G->netpos; H128 k=sim_hash(); X->outcome=h^k.a; 
  X->ended=1; }
// one execution in a process of its own; false: the process died
static bool exec_fork(TScen&sc,const std::vector<uint16_t>&pre,int verbose){
  X->n=0; X->nprefix=pre.size(); for(size_t i=0;i<pre.size();i++) X->ch[i]=pre[i]; X->verbose=verbose; X->msg[0]=0; X->ended=0; X->pruned=0; fflush(stdout);
  pid_t p=fork(); if(p==0){ struct rlimit rl={20,30}; setrlimit(RLIMIT_CPU,&rl); struct rlimit cl={0,0}; setrlimit(RLIMIT_CORE,&cl); struct rlimit ml={3ull<<30,3ull<<30}; setrlimit(RLIMIT_DATA,&ml); execute(sc); if(verbose) fflush(stdout); _exit(0); }
  int st; while(waitpid(p,&st,0)<0&&errno==EINTR); if(!X->ended&&!X->msg[0]){ if(WIFEXITED(st)&&WEXITSTATUS(st)==3) snprintf(X->msg,sizeof X->msg,"harness: simulator limit reached"); else if(WIFSIGNALED(st)&&WTERMSIG(st)==SIGXCPU) snprintf(X->msg,sizeof X->msg,"the tool runs forever"); else snprintf(X->msg,sizeof X->msg,"the tool destroyed its process (status %d)",st); }
  return X->ended; }
struct TRes { uint64_t merged,execs,nodes,edges,sys,events,outcomes; int viol; int done; int maxlen; char msg[600]; uint32_t n; uint16_t ch[4000]; };
struct Item { int s; uint32_t n; uint16_t ch[40]; };
static double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
static std::string jesc(const std::string&s){ std::string r; for(char c:s){ if(c=='"'||c=='\\'){ r+='\\'; r+=c; } else if((unsigned char)c<32||(unsigned char)c>126) r+=' '; else r+=c; } return r; }
static void save_replay(const char*path,const char*prop,TScen&s,const char*msg,const uint16_t*ch,uint32_t n){ FILE*f=fopen(path,"w"); if(!f) return; fprintf(f,"property %s\nscenario %s\nviolation %s\nchoices",prop,s.name.c_str(),msg); for(uint32_t i=0;i<n;i++) fprintf(f," %d",ch[i]); fprintf(f,"\n"); fclose(f); }
int main(int argc,char**argv){
  load_syms(); X=(Shared*)mmap(0,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  if(argc>=3&&!strcmp(argv[1],"replay")){ FILE*f=fopen(argv[2],"r"); if(!f){perror(argv[2]);return 2;} static char b[40000]; char prop[50]="",sn[200]=""; std::vector<uint16_t> ch; while(fgets(b,sizeof b,f)){ sscanf(b,"property %49s",prop); sscanf(b,"scenario %199s",sn); if(!strncmp(b,"choices",7)) for(char*p=strtok(b+7," \n");p;p=strtok(0," \n")) ch.push_back(atoi(p)); } fclose(f);
    for(int th=0;th<2;th++){ std::vector<TScen> v; tool_scenarios(prop,th,v); for(auto&s:v) if(s.name==sn){ sim_boot(); exec_fork(s,ch,1); if(X->msg[0]){ printf("VIOLATION reproduced: %s\n",X->msg); return 1; } printf("no violation\n"); return 0; } } printf("no such scenario\n"); return 2; }
  if(argc<4){ fprintf(stderr,"usage: mctool PROPERTY quick|thorough OUTDIR [scenario-substring]\n"); return 2; }
  std::string prop=argv[1]; bool th=!strcmp(argv[2],"thorough"); const char*out=argv[3]; std::vector<TScen> sc; tool_scenarios(prop,th,sc); if(argc>4){ std::vector<TScen> k; for(auto&s:sc) if(s.name.find(argv[4])!=std::string::npos) k.push_back(s); sc=k; } if(sc.empty()) return 2;
  int ncpu=sysconf(_SC_NPROCESSORS_ONLN); if(getenv("MC_JOBS")) ncpu=atoi(getenv("MC_JOBS")); double t0=now(), limit=th?7200:780; if(getenv("MC_LIMIT")) limit=atof(getenv("MC_LIMIT"));
  size_t MAXI=200000; Item*it=(Item*)mmap(0,sizeof(Item)*MAXI,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); struct Q { uint32_t n,next,stop; } *q=(Q*)mmap(0,4096,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  V=(uint64_t*)mmap(0,8*VN,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
  TRes*res=(TRes*)mmap(0,sizeof(TRes)*sc.size()*(ncpu+1),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); 
  // split every scenario into subtrees, in parallel over scenarios; then explore the subtrees
  auto phase=[&](std::function<void(int)> w){ std::vector<pid_t> ps; for(int i=0;i<ncpu;i++){ fflush(stdout); pid_t p=fork(); if(p==0){ X=(Shared*)mmap(0,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); sim_boot(); w(i); _exit(0);} ps.push_back(p); } bool to=false; while(!ps.empty()){ int st; pid_t p=waitpid(-1,&st,WNOHANG); if(p>0) ps.erase(std::remove(ps.begin(),ps.end(),p),ps.end()); else if(p<0) break; else { usleep(3000); if(now()-t0>limit&&!to){ to=true; q->stop=2; } } } };
  auto report=[&](int w,int s){ TRes&r=res[(size_t)w*sc.size()+s]; if(!r.viol){ r.viol=1; memcpy(r.msg,X->msg,sizeof r.msg); r.n=X->n; memcpy(r.ch,X->ch,sizeof(uint16_t)*X->n); } if(!q->stop) q->stop=1; };
  q->n=0; q->next=0; uint32_t*cnt=(uint32_t*)mmap(0,4*sc.size()+4096,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); uint32_t*fan=cnt; (void)fan;
  phase([&](int w){ for(;;){ uint32_t s=__atomic_fetch_add(&q->next,1,__ATOMIC_SEQ_CST); if(s>=sc.size()||q->stop) return; std::vector<std::vector<uint16_t>> fr={{}}, leaves; size_t want=std::max<size_t>(8,600/sc.size()); 
      while(!fr.empty()&&fr.size()+leaves.size()<want&&fr[0].size()<38){ std::vector<std::vector<uint16_t>> nx; for(auto&p:fr){ if(q->stop) return; exec_fork(sc[s],p,0); if(X->msg[0]){ report(w,s); return; } if(X->n<=p.size()){ leaves.push_back(p); continue; } for(int c=0;c<X->ar[p.size()];c++){ auto v=p; v.push_back(c); nx.push_back(v); } } fr=nx; }
      for(auto&p:leaves) fr.push_back(p); for(auto&p:fr){ uint32_t i=__atomic_fetch_add(&q->n,1,__ATOMIC_SEQ_CST); if(i>=MAXI){ fprintf(stderr,"too many subtrees\n"); _exit(4);} it[i].s=s; it[i].n=p.size(); memcpy(it[i].ch,p.data(),p.size()*2); } } });
  uint32_t total=q->n; q->next=0;
  if(!q->stop) phase([&](int w){ std::vector<std::unordered_set<uint64_t>> seen(sc.size()); for(;;){ uint32_t i=__atomic_fetch_add(&q->next,1,__ATOMIC_SEQ_CST); if(i>=total||q->stop) break; int s=it[i].s; TRes&r=res[(size_t)w*sc.size()+s]; std::vector<uint16_t> pre(it[i].ch,it[i].ch+it[i].n); size_t base=pre.size(); bool first=true;
      for(;;){ if(q->stop) break; X->sys=X->events=0; g_scen=s; g_merge=!getenv("MC_NOMERGE"); exec_fork(sc[s],pre,0); if(X->pruned) r.merged++; else r.execs++; r.sys+=X->sys; r.events+=X->events; r.nodes+=first?X->n-base+1:X->n-pre.size()+1; first=false; if((int)X->n>r.maxlen) r.maxlen=X->n; if(!X->pruned) if(seen[s].insert(X->outcome).second) r.outcomes++;
        if(X->msg[0]){ report(w,s); break; }
        int k=(int)X->n-1; while(k>=(int)base&&X->ch[k]+1>=X->ar[k]) k--; if(k<(int)base) break; pre.assign(X->ch,X->ch+k+1); pre[k]++; } } });
  int viol=0; uint64_t MG=0,E=0,N=0,SY=0,EV=0,O=0; std::string js; bool complete=q->stop==0;
  for(size_t s=0;s<sc.size();s++){ TRes a; memset(&a,0,sizeof a); int nsub=0; for(uint32_t i=0;i<total;i++) nsub+=it[i].s==(int)s; for(int w=0;w<ncpu;w++){ TRes&r=res[(size_t)w*sc.size()+s]; a.execs+=r.execs; a.merged+=r.merged; MG+=r.merged; a.nodes+=r.nodes; a.sys+=r.sys; a.events+=r.events; a.outcomes=std::max(a.outcomes,r.outcomes); a.maxlen=std::max(a.maxlen,r.maxlen);
      if(r.viol){ viol++; std::string path=std::string(out)+"/"+prop+"-"+sc[s].name+".trace"; save_replay(path.c_str(),prop.c_str(),sc[s],r.msg,r.ch,r.n); if(!a.viol){ printf("scenario %s: %s\n",sc[s].name.c_str(),r.msg); if(!strncmp(r.msg,"harness:",8)) viol+=1000; else printf("VIOLATION property=%s replay=%s\n",prop.c_str(),path.c_str()); } a.viol=1; } }
    E+=a.execs;N+=a.nodes;SY+=a.sys;EV+=a.events;O+=a.outcomes; std::string cmd; for(auto&x:sc[s].argv) cmd+=(cmd.empty()?"":" ")+x;
    if(getenv("MC_VERBOSE")) fprintf(stderr,"%-34s execs=%llu merged=%llu nodes=%llu outcomes=%llu sys=%llu longest=%d subtrees=%d\n",sc[s].name.c_str(),(unsigned long long)a.execs,(unsigned long long)a.merged,(unsigned long long)a.nodes,(unsigned long long)a.outcomes,(unsigned long long)a.sys,a.maxlen,nsub);
    char b[700]; snprintf(b,sizeof b,"%s{\"name\":\"%s\",\"processes\":4,\"scheduling\":\"%s\",\"op_bound\":%d,\"kills\":0,\"faults\":%d,\"states\":%llu,\"transitions\":%llu,\"complete_executions\":%llu,\"distinct_results\":%llu,\"longest\":%d,\"complete\":%s,\"sample\":\"%s\"}",s?",":"",sc[s].name.c_str(),sc[s].everywhere?"every system call":"while the tool waits",0,sc[s].werr,(unsigned long long)a.nodes,(unsigned long long)(a.nodes?a.nodes-1:0),(unsigned long long)a.execs,(unsigned long long)a.outcomes,a.maxlen,complete?"true":"false",jesc(cmd.substr(0,200)).c_str()); js+=b; }
  std::string path=std::string(out)+"/"+prop+".mc.json"; FILE*f=fopen(path.c_str(),"w"); if(f){ fprintf(f,"{\"states\":%llu,\"transitions\":%llu,\"complete_executions\":%llu,\"system_calls\":%llu,\"quiescent_states_judged\":%llu,\"kills\":0,\"merged\":%llu,\"impl_traces\":%llu,\"x_environment_events\":%llu,\"x_distinct_outcomes\":%llu,\"capped\":0,\"timedout\":%d,\"violations\":%d,\"wall\":%.2f,\"scenarios\":[%s]}\n",(unsigned long long)N,(unsigned long long)(N-sc.size()),(unsigned long long)E,(unsigned long long)SY,(unsigned long long)E,(unsigned long long)MG,(unsigned long long)E,(unsigned long long)EV,(unsigned long long)O,q->stop==2,viol,now()-t0,js.c_str()); fclose(f); }
  printf("%s: %zu scenarios, %llu executions, %llu choice-tree nodes, %.1f s\n",prop.c_str(),sc.size(),(unsigned long long)E,(unsigned long long)N,now()-t0);
  if(viol>=1000) return 3; if(viol) return 1; return q->stop==2?3:0; }
