// Scenarios and oracles for shr-tool (C18 pub/sub, C19 tee, C20 read/write/status, C24 create, C25 mount).
#include "tool.h"
#include "shr.h"
#include <cstdio>
#include <cstdlib>
#include <csignal>
#include <cerrno>
#include <algorithm>
#include <cstdarg>
#include <set>
#include <map>
#include <sys/stat.h>
typedef std::string str; typedef std::vector<str> vs;
static str fmt(const char*f,...){ char b[400]; va_list a; va_start(a,f); vsnprintf(b,sizeof b,f,a); va_end(a); return b; }
// ---------------------------------------------------------------- the other users of the rings
static vs M;                       // every message written to the source ring by its writer, in order
static shr *wr; static vs got[3];  // messages drained from ring k by its reader while the tool ran
static str msg(int id,size_t len){ str s(len,0); for(size_t j=0;j<len;j++) s[j]="ABCDEFGHIJKLMNOPQRSTUVWXYZ"[(id*7+j*3+(j>>5))%26]; if(len) s[0]='0'+id%10; return s; }
static void mkring(const char*n,size_t sz,unsigned fl=0,size_t mm=0){ if(!mm&&sz>500000) mm=8; run_env(1,[=]{ int rc=mm?shr_init((char*)n,sz,fl|SHR_MAXMSGS_2,mm):shr_init((char*)n,sz,fl); if(rc<0) sim_violation("harness: cannot create ring"); }); }
static void openw(const char*n="src"){ run_env(1,[=]{ wr=shr_open(n,SHR_WRONLY|SHR_NONBLOCK); if(!wr) sim_violation("harness: cannot open ring"); }); }
static void wmsg(const str&m){ run_env(1,[=]{ str t=m; ssize_t r=shr_write(wr,&t[0],t.size()); if(r==(ssize_t)t.size()) M.push_back(m); }); }
static shr *rdh[3]; static const char*rn[3]={"src","o1","o2"};
static bool read1(int k,const char*n){ bool any=false; static bool*pa; pa=&any; run_env(2,[=]{ if(!rdh[k]) rdh[k]=shr_open(n,SHR_RDONLY|SHR_NONBLOCK); if(!rdh[k]){ sim_violation("harness: cannot open ring"); } static char b[FAREA]; ssize_t r=shr_read(rdh[k],b,sizeof b); if(r>0){ got[k].push_back(str(b,r)); *pa=true; } else if(r<0) sim_violation("a ring the tool used cannot be read (%zd)",r); }); return any; }
static vs drain(int k,const char*n=nullptr){ while(!g_viol&&read1(k,n?n:rn[k])); return got[k]; }
static struct shr_stat stat_of(const char*n){ static struct shr_stat st; memset(&st,0,sizeof st); run_env(3,[=]{ shr*s=shr_open(n,SHR_RDONLY|SHR_NONBLOCK); if(!s){ sim_violation("ring %s cannot be opened",n); return; } if(shr_stat(s,&st,nullptr)<0) sim_violation("ring %s cannot be examined",n); shr_close(s); }); return st; }
uint64_t tool_scen_state(){ uint64_t h=1469598103934665603ull; auto mix=[&](const vs&v){ h=(h^v.size())*1099511628211ull; for(auto&m:v){ h=(h^m.size())*1099511628211ull; for(unsigned char c:m) h=(h^c)*1099511628211ull; } }; mix(M); for(int i=0;i<3;i++){ mix(got[i]); h=(h^(uint64_t)rdh[i])*1099511628211ull; } return h^(uint64_t)wr; }
static size_t unread(const char*n){ size_t r=0; run_pure([&]{ r=stat_of(n).mu; }); return r; }
static void fresh(){ M.clear(); wr=nullptr; for(int i=0;i<3;i++){ rdh[i]=nullptr; got[i].clear(); } }
static Ev ev(const str&n,std::function<void()> f,std::function<bool()> g=nullptr){ Ev e; e.name=n; e.fn=f; e.guard=g; return e; }
static Ev sigev(int s){ return ev(fmt("signal %d",s),[s]{ G->sigs.push_back(s); if(s!=SIGALRM) G->term=true; }); }
static Ev wev(int id,size_t len){ return ev(fmt("write message %d of %zu bytes",id,len),[=]{ wmsg(msg(id,len)); }); }
static Ev rev_(int k){ return ev(fmt("read from %s",rn[k]),[k]{ read1(k,rn[k]); },[k]{ return unread(rn[k])>0; }); }
static str prefix(const str&m){ uint32_t n=m.size(); return str((char*)&n,4)+m; }
static bool is_prefix(const vs&a,const vs&b){ if(a.size()>b.size()) return false; for(size_t i=0;i<a.size();i++) if(a[i]!=b[i]) return false; return true; }
static str cat(const vs&v,size_t n){ str s; for(size_t i=0;i<n&&i<v.size();i++) s+=v[i]; return s; }
// ---------------------------------------------------------------- C18 publisher
static Ev connect_ev(int c){ return ev(fmt("client %d connects",c),[c]{ if((int)G->conn.size()<c) G->conn.resize(c); },[]{ return G->listening; }); }
static Ev peer_ev(int c,int how){ return ev(fmt(how==1?"client %d closes":"client %d resets",c),[=]{ G->conn[c-1].peer=how; },[c]{ return (int)G->conn.size()>=c; }); }
static Ev send_ev(int c,int n){ return ev(fmt("client %d sends %d bytes",c,n),[=]{ if(!G->conn[c-1].peer) G->conn[c-1].in+=n; },[c]{ return (int)G->conn.size()>=c; }); }
static str pub_oracle(bool pfx,bool may_exit){
  struct shr_stat st=stat_of("src"); if(g_viol) return "";
  if(st.mw!=M.size()) return fmt("harness: counters disagree with the writer (%zu, %zu)",st.mw,M.size());
  size_t consumed=st.mw-st.mu;
  // possible numbers of messages accounted for by the connections so far
  std::set<size_t> at={0}; for(auto&c:G->conn) if(c.st){ std::set<size_t> nx; for(size_t i0:at){ size_t i=i0,pos=0; bool ok=true,cutf=false; while(pos<c.out.size()){ if(i>=M.size()){ ok=false; break; } str f=pfx?prefix(M[i]):M[i]; size_t left=c.out.size()-pos; if(left>=f.size()&&!c.out.compare(pos,f.size(),f)){ i++; pos+=f.size(); } else if(left<f.size()&&!f.compare(0,left,c.out,pos,left)&&c.failed){ i++; cutf=true; break; } else { ok=false; break; } } if(ok){ nx.insert(i); if(c.failed&&!cutf) nx.insert(i+1); } } at=nx; }
  if(at.empty()) return "the bytes sent to clients are not the ring's messages, framed, in order, each once";
  if(!at.count(consumed)){ str s; for(size_t x:at) s+=fmt(" %zu",x); return fmt("%zu messages were consumed from the ring but the clients were sent%s",consumed,s.c_str()); }
  if(G->exited&&!G->term&&!may_exit) return "the publisher ended although nobody asked it to";
  if(!G->exited){ int live=0; for(size_t i=0;i<G->conn.size();i++){ Conn&c=G->conn[i]; bool open=conn_open(i+1); if(c.st==0) return "a client was left in the accept queue"; if(open&&c.peer) return "the publisher keeps a connection whose client is gone"; if(open&&c.failed) return "the publisher keeps a broken connection"; if(open) live++; else if(!c.peer&&!c.failed&&!c.other) return "the publisher dropped a client that was connected and well"; }
    if(live>1) return "two clients are served at once"; if(live==1&&consumed!=M.size()) return fmt("the publisher waits although a client is connected and %zu messages are unread",M.size()-consumed); 
    if(G->term) return "the publisher did not end when told to"; }
  return ""; }
static TScen pub(const str&name,bool pfx,std::vector<std::vector<Ev>> th,std::vector<size_t> before={},unsigned fl=0,size_t ring=100,bool may_exit=false){
  TScen s; s.name=name; s.argv={"shr-tool","pub","5000"}; if(!pfx) s.argv.push_back("-P"); s.argv.push_back("src"); s.threads=th;
  s.setup=[=]{ fresh(); mkring("src",ring,fl); openw(); int id=100; for(size_t l:before) wmsg(msg(id++,l)); }; s.oracle=[=]{ return pub_oracle(pfx,may_exit); }; return s; }
// ---------------------------------------------------------------- C18 subscriber
static const size_t BUFMAX=1000000, FRAMEMAX=1024*1024;
static str sub_oracle(size_t cap){ 
  vs full=drain(1,"dst"); if(g_viol) return ""; 
  // parse what was delivered to the tool
  str d=S->net.substr(0,G->netpos); vs fr; size_t p=0; bool bad=false,maybe=false; while(p+4<=d.size()){ uint32_t n; memcpy(&n,&d[p],4); if(n==0||n>FRAMEMAX){ bad=true; break; } if(n>cap){ if(p+4+n<=d.size()) bad=true; else maybe=true; break; } if(n+4>BUFMAX){ maybe=true; break; } if(p+4+n>d.size()) break; fr.push_back(d.substr(p+4,n)); p+=4+n; }
  if(!is_prefix(full,fr)){ if(!(maybe&&is_prefix(fr,full))) return fmt("the ring holds %zu messages that are not the received frames in order (%zu complete frames received)",full.size(),fr.size()); }
  if(!maybe&&full.size()!=fr.size()) return fmt("%zu of %zu received frames were stored",full.size(),fr.size());
  if(bad&&!G->exited) return "the subscriber goes on after a malformed frame";
  if(G->exited&&!G->term&&!bad&&!maybe&&!G->neteof_seen&&G->subconn) return "the subscriber ended although the stream is well formed and open";
  if(!G->exited){ if(G->neteof_seen) return "the subscriber did not end at the end of the stream"; if(G->netpos<S->net.size()) return "the subscriber waits although data has arrived"; if(G->term) return "the subscriber did not end when told to"; }
  return ""; }
static TScen sub(const str&name,const str&net,int end,size_t ring=100,unsigned fl=0,size_t mm=0){ TScen s; s.name=name; s.argv={"shr-tool","sub","localhost:5000","dst"}; s.net=net; s.netend=end; s.setup=[=]{ fresh(); mkring("dst",ring,fl,mm); }; s.oracle=[=]{ return sub_oracle(ring); }; return s; }
static str frames(std::vector<size_t> l){ str s; int id=1; for(size_t n:l) s+=prefix(msg(id++,n)); return s; }
static void c18(bool th,std::vector<TScen>&o){
  for(int pfx=1;pfx>=0;pfx--){ str t=pfx?"":"-raw";
    { auto s=pub("pub-basic"+t,pfx,{{connect_ev(1),peer_ev(1,1)},{wev(1,2),wev(2,1)},{sigev(SIGALRM)}},{3}); s.shortw=1; s.werr=1; o.push_back(s); }
    { auto s=pub("pub-partial"+t,pfx,{{connect_ev(1)}},{3,1,2}); s.shortw=th?5:3; s.werr=1; o.push_back(s); }
    { auto s=pub("pub-reconnect"+t,pfx,{{connect_ev(1),peer_ev(1,1),connect_ev(2)},{wev(1,2),wev(2,1),wev(3,2)}}); s.shortw=th?2:1; s.cuts={1,3}; s.werr=1; o.push_back(s); }
    { auto s=pub("pub-reset"+t,pfx,{{connect_ev(1),peer_ev(1,2),connect_ev(2)},{wev(1,2),wev(2,1)}},{1}); s.shortw=1; s.cuts={1,2}; s.werr=1; o.push_back(s); } }
  { auto s=pub("pub-second-client",true,{{connect_ev(1),peer_ev(1,1)},{connect_ev(2),peer_ev(2,1)},{wev(1,2)}},{1}); if(th) s.werr=1; o.push_back(s); }
  { auto s=pub("pub-second-client-stays",true,{{connect_ev(1),connect_ev(2)},{wev(1,2),wev(2,2)}},{1}); s.werr=1; s.shortw=th?1:0; o.push_back(s); }
  { auto s=pub("pub-client-talks",true,{{connect_ev(1),send_ev(1,1),send_ev(1,250),peer_ev(1,1)},{wev(1,2),wev(2,1)}}); o.push_back(s); }
  { auto s=pub("pub-client-talks-reset",true,{{connect_ev(1),send_ev(1,150),peer_ev(1,2),connect_ev(2)},{wev(1,2)}},{1}); o.push_back(s); }
  for(int sg: {SIGTERM,SIGINT,SIGHUP,SIGQUIT}) { auto s=pub(fmt("pub-signal-%d",sg),true,{{connect_ev(1)},{wev(1,2),wev(2,1)},{sigev(SIGALRM),sigev(sg)}},{1}); o.push_back(s); }
  { auto s=pub("pub-anywhere",true,{{connect_ev(1),peer_ev(1,1)},{wev(1,2),wev(2,1)}},{1}); s.everywhere=true; o.push_back(s); }
  if(th){ auto s=pub("pub-anywhere-reset",true,{{connect_ev(1),peer_ev(1,2),connect_ev(2)},{wev(1,2),wev(2,1)}},{1}); s.everywhere=true; s.werr=1; o.push_back(s);
    auto t=pub("pub-long",true,{{connect_ev(1),peer_ev(1,1),connect_ev(2),peer_ev(2,2),connect_ev(3)},{wev(1,2),wev(2,1),wev(3,2),wev(4,3)}}); t.werr=1; o.push_back(t); }
  { auto s=pub("pub-drop-ring",true,{{connect_ev(1)},{wev(1,2),wev(2,2),wev(3,2)}},{2,2},SHR_DROP,100); s.shortw=1; s.cuts={1}; o.push_back(s); }
  for(size_t big: {(size_t)65535,(size_t)65536,(size_t)70000,(size_t)999999,(size_t)1000000,(size_t)1000001}) { auto s=pub(fmt("pub-big-%zu",big),true,{{connect_ev(1)}},{2,big},0,1000003,big>BUFMAX); s.big=true; s.shortw=2; s.cuts={1,4,65536,big-1}; o.push_back(s); }
  // subscriber: every truncation of the stream, every way it can end, every segmentation
  { str f=frames(th?std::vector<size_t>{1,2,1}:std::vector<size_t>{2,1}); for(size_t t=0;t<=f.size();t++) for(int e=0;e<3;e++){ auto s=sub(fmt("sub-cut%zu-end%d",t,e),f.substr(0,t),e); o.push_back(s); } }
  { auto s=sub("sub-signals",frames({2,1}),0); s.threads={{sigev(SIGALRM),sigev(SIGTERM)}}; s.segs=3; o.push_back(s); }
  { auto s=sub("sub-many",frames({1,1,1,1,1,1,1,1,1,1,1,1}),1,200); s.segs=th?4:3; s.cuts={1,2,3,4,5,6,9,10,11,31,59}; o.push_back(s); }
  // rings smaller than what one read delivers
  { auto s=sub("sub-small-ring",frames({4,4,4,3,4}),0,9); s.threads={{rev_(0),rev_(0),rev_(0),rev_(0),rev_(0),rev_(0),rev_(0)}}; s.threads[0].clear(); for(int i=0;i<7;i++) s.threads[0].push_back(ev("read from dst",[]{ read1(1,"dst"); },[]{ return unread("dst")>0; })); s.segs=2; s.cuts={1,7,8,9,16,20}; o.push_back(s); }
  { auto s=sub("sub-few-slots",frames({1,1,1,1,1}),0,100,0,2); s.threads.resize(1); for(int i=0;i<7;i++) s.threads[0].push_back(ev("read from dst",[]{ read1(1,"dst"); },[]{ return unread("dst")>0; })); s.segs=2; s.cuts={1,5,6,10,12}; o.push_back(s); }
  // thousands of small frames in one read
  for(size_t n: {(size_t)1100,(size_t)5000,(size_t)17000}) { auto s=sub(fmt("sub-thousands-%zu",n),frames(std::vector<size_t>(n,1)),0,n+10,0,n+5); s.big=true; s.segs=th?3:2; s.cuts={1,4,5,5*n/2,5*n-1}; o.push_back(s); }
  // malformed frames after 0, 1, 2 good ones
  for(int good=0;good<=2;good++) for(uint32_t n: {0u,1024u*1024u+1u,0x7fffffffu,0x80000000u,0xffffffffu,0xfffffffcu,101u}){ str f=good==0?"":good==1?frames({2}):frames({2,1}); f+=str((char*)&n,4)+(n==101?msg(9,101):"xyz"); auto s=sub(fmt("sub-bad%d-%x",good,n),f,0); s.segs=th?6:2; o.push_back(s); }
  // frames around the buffer size and the frame limit
  for(size_t n: {(size_t)65536,(size_t)999995,(size_t)999996,(size_t)999997,(size_t)999999,(size_t)1000000}) { str f=prefix(msg(1,n))+frames({3}); auto s=sub(fmt("sub-big-%zu",n),f,1,1000003); s.big=true; s.segs=2; s.cuts={1,3,4,5,999999,1000000,n,n+3,n+4,n+5}; std::sort(s.cuts.begin(),s.cuts.end()); s.cuts.erase(std::unique(s.cuts.begin(),s.cuts.end()),s.cuts.end()); o.push_back(s); }
  { str f; uint32_t n=1048576; f=str((char*)&n,4)+msg(1,n)+frames({2}); auto s=sub("sub-big-limit",f,0,1000003); s.big=true; s.segs=2; s.cuts={1,4,5,999999}; o.push_back(s); }
  { str f=frames({2})+prefix(msg(5,700000))+prefix(msg(6,299990))+frames({3,1}); auto s=sub("sub-straddle",f,1,1000003); s.big=true; s.segs=2; s.cuts={1,4,6,7,11,700000,700010,700011,999999}; o.push_back(s); }
  // two large frames that together exceed the ring, drained meanwhile
  { str f=prefix(msg(5,70))+prefix(msg(6,60))+prefix(msg(7,80)); auto s=sub("sub-over-capacity",f,0,100); s.threads.resize(1); for(int i=0;i<5;i++) s.threads[0].push_back(ev("read from dst",[]{ read1(1,"dst"); },[]{ return unread("dst")>0; })); s.segs=1; s.cuts={1,4,74,75,140}; o.push_back(s); }
  // cannot connect
  { auto s=sub("sub-refused",frames({1}),0); s.connfail=true; s.oracle=[]{ return G->exited&&G->code?str():str("a refused connection did not end the subscriber with an error"); }; o.push_back(s); }
  for(const char*a: {"nohost:5000",":5000","5000","localhost:0","localhost:65536","localhost:x","localhost:-1","localhost:"}){ auto s=sub(str("sub-addr-")+a,frames({1}),0); s.argv[2]=a; s.oracle=[]{ return G->exited&&G->code&&!G->subconn?str():str("a bad address did not end the subscriber with an error"); }; std::replace(s.name.begin(),s.name.end(),':','_'); o.push_back(s); }
  for(const char*a: {"nohost:5000",":0","x",":70000"}){ auto s=pub(str("pub-addr-")+a,true,{},{1}); s.argv[2]=a; s.oracle=[]()->str{ if(!(G->exited&&G->code&&!G->listening)) return "a bad address did not end the publisher with an error"; if(stat_of("src").mu!=1) return "the publisher consumed a message"; return ""; }; std::replace(s.name.begin(),s.name.end(),':','_'); o.push_back(s); }
}
// ---------------------------------------------------------------- C19
static str tee_oracle(bool sizes_ok,size_t drop1){
  struct shr_stat st=stat_of("src"); if(g_viol) return ""; size_t c=st.mw-st.mu; if(st.mw!=M.size()) return "harness: counters disagree with the writer";
  struct shr_stat a=stat_of("o1"), b=stat_of("o2"); if(g_viol) return ""; vs x=drain(1), y=drain(2); if(g_viol) return "";
  if(!sizes_ok){ if(!is_prefix(x,M)||!is_prefix(y,M)) return "a destination holds something other than the source's messages"; return ""; }
  if(a.mw!=c||b.mw!=c) return fmt("%zu messages consumed from the source, %zu and %zu written to the destinations",c,a.mw,b.mw);
  if(drop1){ vs t(M.begin(),M.begin()+c); size_t i=t.size(); if(x.size()>t.size()||x!=vs(t.end()-x.size(),t.end())) return "the drop-mode destination does not hold the newest messages"; (void)i; }
  else if(x!=vs(M.begin(),M.begin()+c)) return "the first destination does not hold exactly the consumed messages";
  if(y!=vs(M.begin(),M.begin()+c)) return "the second destination does not hold exactly the consumed messages";
  if(!G->exited&&c!=M.size()){ return fmt("tee waits although %zu messages are unread",M.size()-c); }
  if(!G->exited&&G->term) return "tee did not end when told to";
  if(G->exited&&!G->term) return "tee ended although nobody asked it to";
  return ""; }
static TScen tee(const str&name,std::vector<std::vector<Ev>> th,std::vector<size_t> before,size_t n1=200,size_t n2=200,unsigned f1=0,unsigned f2=0,unsigned fs=0,size_t ns=200,size_t mm=0){ TScen s; s.name=name; s.argv={"shr-tool","tee","src","o1","o2"}; s.threads=th;
  s.setup=[=]{ fresh(); mkring("src",ns,fs); mkring("o1",n1,f1,mm); mkring("o2",n2,f2); openw(); int id=100; for(size_t l:before) wmsg(msg(id++,l)); }; s.oracle=[=]{ return tee_oracle(true,f1&SHR_DROP); }; return s; }
static void c19(bool th,std::vector<TScen>&o){
  o.push_back(tee("tee-basic",{{wev(1,2),wev(2,1),wev(3,3)},{sigev(SIGALRM)}},{3,1}));
  o.push_back(tee("tee-arrivals",{{wev(1,2),wev(2,1),wev(3,3),wev(4,1),wev(5,2)},{sigev(SIGALRM),sigev(SIGALRM)}},{}));
  for(int sg: {SIGTERM,SIGINT,SIGHUP,SIGQUIT}) o.push_back(tee(fmt("tee-signal-%d",sg),sg==SIGTERM?std::vector<std::vector<Ev>>{{wev(1,2),wev(2,1),wev(3,2)},{sigev(SIGALRM),sigev(sg)}}:std::vector<std::vector<Ev>>{{wev(1,2)},{sigev(SIGALRM),sigev(sg)}},{1,2}));
  { auto s=tee("tee-anywhere",{{wev(1,2),wev(2,1)}},{1}); s.everywhere=true; o.push_back(s); }
  { auto s=tee("tee-anywhere-signal",{{wev(1,2)},{sigev(SIGTERM)}},{1}); s.everywhere=true; o.push_back(s); }
  if(th){ auto s=tee("tee-anywhere-3",{{wev(1,2),wev(2,1),wev(3,3)},{sigev(SIGALRM)}},{1}); s.everywhere=true; o.push_back(s); }
  // destinations that fill up and are drained by readers
  { auto s=tee("tee-full-first",{{wev(1,2),wev(2,2)},{rev_(1),rev_(1),rev_(1),rev_(1)}},{3,2},4,200); o.push_back(s); }
  { auto s=tee("tee-full-second",{{wev(1,2),wev(2,2)},{rev_(2),rev_(2),rev_(2),rev_(2)}},{3,2},200,4); o.push_back(s); }
  { auto s=tee("tee-full-both",{{wev(1,2)},{rev_(1),rev_(1),rev_(1)},{rev_(2),rev_(2),rev_(2)}},{3,2},4,4); o.push_back(s); }
  { auto s=tee("tee-few-slots",{{wev(1,2),wev(2,2)},{rev_(1),rev_(1),rev_(1),rev_(1)}},{3,2},200,200,0,0,0,200,1); o.push_back(s); }
  { auto s=tee("tee-wrap",{{wev(1,3),wev(2,3),wev(3,3),wev(4,3)},{rev_(1),rev_(1),rev_(1),rev_(1)}},{3},7,200,0,0,0,7); s.threads={{wev(1,3),wev(2,3),wev(3,3)},{rev_(1),rev_(1),rev_(1),rev_(1)}}; o.push_back(s); }
  o.push_back(tee("tee-drop-dest",{{wev(1,2),wev(2,3),wev(3,3)}},{3,2},5,200,SHR_DROP));
  o.push_back(tee("tee-sync-dest",{{wev(1,2),wev(2,3)}},{3},200,200,SHR_SYNC,SHR_SYNC,SHR_SYNC));
  o.push_back(tee("tee-drop-src",{{wev(1,2),wev(2,3)}},{3,1},200,200,0,0,SHR_DROP));
  for(size_t big: {(size_t)65536,(size_t)999999,(size_t)1000000}) { auto s=tee(fmt("tee-big-%zu",big),{{wev(1,3)}},{2,big},1000010,1000010,0,0,0,1000010); s.big=true; o.push_back(s); }
  { auto s=tee("tee-too-big",{{wev(1,3)}},{2,6},5,200); s.oracle=[]{ return tee_oracle(false,0); }; o.push_back(s); }
  { auto s=tee("tee-missing",{},{2}); s.argv[4]="nosuch"; s.oracle=[]()->str{ if(!G->exited||!G->code) return "a missing destination did not end tee with an error"; if(stat_of("src").mu!=1) return "a message was consumed although a destination is missing"; return ""; }; o.push_back(s); }
  { auto s=tee("tee-missing-src",{},{2}); s.argv[2]="nosuch"; s.oracle=[]()->str{ if(!G->exited||!G->code) return "a missing source did not end tee with an error"; return ""; }; o.push_back(s); }
  { auto s=tee("tee-usage",{},{2}); s.argv.pop_back(); s.oracle=[]()->str{ if(!G->exited||!G->code) return "a missing argument did not end tee with an error"; if(stat_of("src").mu!=1||stat_of("o1").mu) return "messages moved although an argument is missing"; return ""; }; o.push_back(s); }
}
// ---------------------------------------------------------------- C20
static str hexdump(const str&m){ str o; char b[40]; for(size_t n=0;n<m.size();n+=16){ snprintf(b,sizeof b,"%08x ",(int)n); o+=b; for(size_t i=0;i<16;i++) if(n+i<m.size()){ snprintf(b,sizeof b,"%02x ",(unsigned char)m[n+i]); o+=b; } else o+="   "; for(size_t i=0;i<16;i++){ unsigned char c=n+i<m.size()?m[n+i]:' '; o+=(c<0x20||c>0x7e)?'.':(char)c; } o+="\n"; } return o; }
static str read_oracle(bool hex,size_t limit,bool block){
  struct shr_stat st=stat_of("src"); if(g_viol) return ""; size_t c=st.mw-st.mu; if(st.mw!=M.size()) return "harness: counters disagree with the writer";
  vs shown; for(auto&m:M) shown.push_back(hex?hexdump(m):m);
  str want=cat(shown,c); if(!G->outbad){ if(G->out!=want) return fmt("%zu messages were consumed but %zu bytes of output differ from theirs (%zu bytes)",c,G->out.size(),want.size()); }
  else { // the output failed: what came out is a prefix, and nothing was consumed after the message being output
    if(G->out.size()>want.size()||want.compare(0,G->out.size(),G->out)) return "the output is not a prefix of the consumed messages"; size_t whole=0; for(size_t i=0;i<c;i++){ if(whole+shown[i].size()<=G->out.size()) whole+=shown[i].size(); else { if(i+1<c) return "messages were consumed after the output had failed"; break; } } if(!G->exited) return "the command goes on after an output error"; }
  if(limit&&c>limit) return "more messages were read than asked for";
  if(limit&&c==limit&&!G->exited) return "the command did not end after the number of messages asked for";
  if(!block&&!G->exited) return "a non-blocking read did not end";
  if(!G->outbad&&!G->term){ size_t exp=limit?std::min(limit,M.size()):M.size(); if(block){ if(c!=exp) return fmt("%zu messages were read, expected %zu",c,exp); if(G->exited&&!(limit&&c==limit)) return "a blocking read ended although nobody asked it to"; } }
  if(!G->exited&&G->term) return "the command did not end when told to";
  if(!G->obuf.empty()&&!G->exited) return "consumed messages are held back from the output";
  return ""; }
static TScen rd(const str&name,bool hex,std::vector<str> opts,size_t limit,bool block,std::vector<std::vector<Ev>> th,std::vector<size_t> before,size_t ring=300){ TScen s; s.name=name+(hex?"-hex":""); s.argv={"shr-tool",hex?"readhex":"read"}; for(auto&x:opts) s.argv.push_back(x); s.argv.push_back("src"); s.threads=th; s.setup=[=]{ fresh(); mkring("src",ring); openw(); int id=100; for(size_t l:before) wmsg(msg(id++,l)); }; s.oracle=[=]{ return read_oracle(hex,limit,block); }; return s; }
// for a non-blocking read with no concurrent writer: everything present is read
static str read_all(bool hex,size_t limit){ str e=read_oracle(hex,limit,false); if(!e.empty()) return e; if(!G->outbad){ struct shr_stat st=stat_of("src"); size_t c=st.mw-st.mu, exp=limit?std::min(limit,M.size()):M.size(); if(c!=exp) return fmt("%zu messages were read, %zu were available",c,exp); } return ""; }
static void wsetup(size_t ring,unsigned fl=0){ fresh(); mkring("dst",ring,fl); }
static str wr_oracle(vs want,bool ok){ vs g=drain(1,"dst"); if(g_viol) return ""; if(!G->exited) return "the command did not end"; if(g!=want){ str s; for(auto&x:g) s+=fmt(" %zu:%.20s",x.size(),x.c_str()); return fmt("the ring holds %zu messages instead of %zu:",g.size(),want.size())+s.substr(0,200); } if(ok!=(G->code==0)) return fmt("exit status %d",G->code); return ""; }
static TScen wrline(const str&name,const str&in,vs want,bool ok=true,size_t ring=5000,unsigned fl=0){ TScen s; s.name=name; s.argv={"shr-tool","write","dst"}; s.in=in; s.setup=[=]{ wsetup(ring,fl); }; s.oracle=[=]{ return wr_oracle(want,ok); }; return s; }
static void c20(bool th,std::vector<TScen>&o){
  for(int hex=0;hex<2;hex++){
    { auto s=rd("read-partial",hex,{},0,false,{},{3,1,4}); s.shortw=th?5:3; s.werr=1; s.oracle=[hex]{ return read_all(hex,0); }; o.push_back(s); }
    { auto s=rd("read-block",hex,{"-b"},0,true,{{wev(1,2),wev(2,1),wev(3,2)},{sigev(SIGALRM)}},{3}); s.shortw=1; s.cuts={1}; s.werr=1; o.push_back(s); }
    { auto s=rd("read-block-anywhere",hex,{"-b"},0,true,{{wev(1,2),wev(2,1)}},{3}); s.everywhere=true; o.push_back(s); }
    { auto s=rd("read-nonblock-anywhere",hex,{},0,false,{{wev(1,2),wev(2,1)}},{3}); s.everywhere=true; o.push_back(s); }
    for(int n=1;n<=4;n++){ auto s=rd(fmt("read-n%d",n),hex,{"-N",fmt("%d",n)},n,false,{},{3,1,2}); s.shortw=1; s.werr=1; s.oracle=[=]{ return read_all(hex,n); }; o.push_back(s);
      auto t=rd(fmt("read-block-n%d",n),hex,{"-b","-N",fmt("%d",n)},n,true,{{wev(1,2),wev(2,1)}},{3}); o.push_back(t); }
    { auto s=rd("read-empty",hex,{},0,false,{},{}); s.oracle=[hex]{ return read_all(hex,0); }; o.push_back(s); }
    { auto s=rd("read-block-empty",hex,{"-b"},0,true,{{wev(1,5)}},{}); o.push_back(s); }
    for(int sg: {SIGTERM,SIGINT,SIGHUP,SIGQUIT}) { auto s=rd(fmt("read-signal-%d",sg),hex,{"-b"},0,true,{{wev(1,2),wev(2,1)},{sigev(SIGALRM),sigev(sg)}},{1}); o.push_back(s); }
    for(size_t n: {15,16,17,31,32,33,200}){ auto s=rd(fmt("read-len%zu",n),hex,{},0,false,{},{n,1}); s.shortw=1; s.werr=1; s.oracle=[hex]{ return read_all(hex,0); }; o.push_back(s); }
    for(size_t n: {4095,4096,4097,20000}){ auto s=rd(fmt("read-len%zu",n),hex,{},0,false,{},{n,1},30000); s.shortw=1; s.cuts={1,4095}; s.werr=1; s.oracle=[hex]{ return read_all(hex,0); }; o.push_back(s); }
    if(!hex) for(size_t n: {999999,1000000}){ auto s=rd(fmt("read-len%zu",n),hex,{},0,false,{},{n,1},1000010); s.big=true; s.shortw=2; s.cuts={1,65536,999998}; s.werr=1; s.oracle=[hex]{ return read_all(hex,0); }; o.push_back(s); }
    { auto s=rd("read-missing",hex,{},0,false,{},{}); s.argv.back()="nosuch"; s.oracle=[]()->str{ return G->exited&&G->code&&G->out.empty()?"":"reading a missing ring did not fail"; }; o.push_back(s); }
    { TScen s=rd("read-bytes",hex,{},0,false,{},{}); s.setup=[]{ fresh(); mkring("src",1000); openw(); str t; for(int i=0;i<256;i++) t+=(char)i; wmsg(t); for(int i=0;i<256;i+=37) wmsg(str(1,(char)i)); }; s.oracle=[hex]{ return read_all(hex,0); }; o.push_back(s); } }
  // write: lines of standard input
  { vs L={"a","bb","","c"}; // every sequence of up to 4 lines, with and without a final newline
    int K=th?4:3; std::vector<int> ix; std::function<void(int)> rec=[&](int d){ for(int nl=0;nl<2;nl++){ str in; vs want; bool ok=true; for(size_t i=0;i<ix.size();i++){ str l=L[ix[i]]; bool last=i+1==ix.size(); in+=l; if(!last||nl) in+="\n"; if(last&&!nl&&l.empty()) continue; if(!ok) continue; if(l.empty()){ ok=false; continue; } want.push_back(l); } str nm="write"; for(int x:ix) nm+=fmt("%d",x); o.push_back(wrline(nm+(nl?"n":""),in,want,ok)); if(ix.empty()) break; } if(d==K) return; for(size_t i=0;i<L.size();i++){ ix.push_back(i); rec(d+1); ix.pop_back(); } }; rec(0); }
  for(size_t n: {998,999,1000,1001,1998,1999,2000,2001,4000}){ str a(n,'x'); a[n-1]='y'; a[0]='z'; o.push_back(wrline(fmt("write-len%zu",n),a+"\nq\n",{a,"q"})); o.push_back(wrline(fmt("write-len%zu-nonl",n),"q\n"+a,{"q",a})); }
  o.push_back(wrline("write-crlf","a\r\nb\r\n",{"a\r","b\r"})); o.push_back(wrline("write-spaces"," a \n\t\n",{" a ","\t"}));
  o.push_back(wrline("write-nul",str("a\0b\nc\n",6),{str("a\0b",3),"c"})); o.push_back(wrline("write-nul-first",str("\0b\nc\n",5),{str("\0b",2),"c"}));
  { str t; for(int i=1;i<256;i++) if(i!='\n') t+=(char)i; o.push_back(wrline("write-bytes",t+"\n",{t})); }
  o.push_back(wrline("write-too-long","ab\nabcdef\nc\n",{"ab"},false,5));
  o.push_back(wrline("write-drop","ab\ncd\nef\n",{"cd","ef"},true,5,SHR_DROP));
  { auto s=wrline("write-full","aaa\nbbb\nccc\n",{"aaa","bbb","ccc"},true,4); s.threads={{}}; for(int i=0;i<2;i++) s.threads[0].push_back(ev("read from dst",[]{ read1(1,"dst"); },[]{ return unread("dst")>0; })); o.push_back(s); }
  { auto s=wrline("write-missing","a\n",{},false); s.argv[2]="nosuch"; o.push_back(s); }
  // writehex: every string over an alphabet, up to a length
  { str A="019afAFgG-+x .z\n"; std::function<void(str,int)> rec=[&](str p,int d){ bool ok=!p.empty()&&p.size()%2==0; for(char c:p) if(!isxdigit((unsigned char)c)) ok=false; vs want; if(ok){ str b; for(size_t i=0;i<p.size();i+=2) b+=(char)strtol(p.substr(i,2).c_str(),0,16); want={b}; } TScen s; str nm; for(char c:p) nm+=fmt("%02x",(unsigned char)c); s.name="writehex-"+nm; s.argv={"shr-tool","writehex",p,"dst"}; s.setup=[]{ wsetup(100); }; s.oracle=[=]{ if(!p.empty()&&p[0]=='-'){ if(G->exited){ vs g=drain(1,"dst"); if(!g.empty()) return str("invalid hex input added a message"); return str(); } } return wr_oracle(want,ok); }; o.push_back(s); if(d==0) return; for(char c:A) rec(p+c,d-1); }; rec("",th?3:2); }
  for(str p: {str("00ff7f80"),str("0x12"),str("12345"),str("DEADbeef"),str("-1-1"),str("+1+1"),str(" 1 1"),str("1 "),str("12g4"),str("123g"),str("1234-5"),str("0X0X"),str("00")}){ bool ok=p.size()%2==0; for(char c:p) if(!isxdigit((unsigned char)c)) ok=false; vs want; if(ok){ str b; for(size_t i=0;i<p.size();i+=2) b+=(char)strtol(p.substr(i,2).c_str(),0,16); want={b}; } TScen s; str nm; for(char c:p) nm+=fmt("%02x",(unsigned char)c); s.name="writehex+"+nm; s.argv={"shr-tool","writehex",p,"dst"}; s.setup=[]{ wsetup(100); }; s.oracle=[=]{ if(!p.empty()&&p[0]=='-'&&0) return str(); return wr_oracle(want,ok); }; o.push_back(s); }
  { TScen s; s.name="writehex-all-bytes"; str h,b; for(int i=0;i<256;i++){ h+=fmt(i&1?"%02x":"%02X",i); b+=(char)i; } s.argv={"shr-tool","writehex",h,"dst"}; s.setup=[]{ wsetup(300); }; s.oracle=[=]{ return wr_oracle({b},true); }; o.push_back(s); }
  // writefile
  for(size_t n: {0,1,2,99,100,101}){ str c=msg(3,n); for(size_t i=0;i<n;i++) c[i]^=(char)(i*91); TScen s; s.name=fmt("writefile-%zu",n); s.argv={"shr-tool","writefile","data","dst"}; s.setup=[=]{ wsetup(100); sim_file_create("data",c.data(),c.size()); }; bool ok=n>0&&n<=100; s.oracle=[=]{ return wr_oracle(ok?vs{c}:vs{},ok); }; o.push_back(s); }
  { TScen s; s.name="writefile-page"; str c=msg(3,4096); s.argv={"shr-tool","writefile","data","dst"}; s.setup=[=]{ wsetup(9000); sim_file_create("data",c.data(),c.size()); }; s.oracle=[=]{ return wr_oracle({c},true); }; o.push_back(s); }
  { TScen s; s.name="writefile-missing"; s.argv={"shr-tool","writefile","data","dst"}; s.setup=[=]{ wsetup(100); }; s.oracle=[=]{ return wr_oracle({},false); }; o.push_back(s); }
  // status, in every state reached by a few writes and reads, for every kind of ring
  for(unsigned fl: {0u,(unsigned)SHR_DROP,(unsigned)SHR_FARM,(unsigned)(SHR_SYNC|SHR_MLOCK),(unsigned)(SHR_DROP|SHR_FARM|SHR_SYNC|SHR_MLOCK)}) for(int ad=0;ad<2;ad++) for(int w=0;w<=3;w++) for(int r=0;r<=w;r++) for(int v=0;v<(ad?3:1);v++){ TScen s; s.name=fmt("status-%x-%d-%d-%d-%d",fl,ad,w,r,v); s.argv={"shr-tool","status","src"}; if(v>=1) s.argv.insert(s.argv.begin()+2,"-v"); if(v==2){ s.argv.insert(s.argv.begin()+2,"-A"); s.argv.insert(s.argv.begin()+3,"appout"); s.shortw=2; s.werr=1; } 
    str app="app data\nxyz"; s.setup=[=]{ fresh(); run_env(1,[=]{ int rc=ad?shr_init((char*)"src",10,fl|SHR_APPDATA_1|SHR_MAXMSGS_2,app.data(),app.size(),(size_t)3):shr_init((char*)"src",10,fl|SHR_MAXMSGS_2,(size_t)3); if(rc<0) sim_violation("harness: init"); }); openw(); for(int i=0;i<w;i++) wmsg(msg(i,4)); for(int i=0;i<r;i++) read1(0,"src"); };
    s.oracle=[=]()->str{ struct shr_stat t=stat_of("src"); if(g_viol) return ""; str e; e+=fmt(" bytes-written %ld\n bytes-read %ld\n bytes-dropped %ld\n messages-written %ld\n messages-read %ld\n messages-dropped %ld\n ring-size %ld\n bytes-ready %ld\n max-messages %ld\n messages-ready %ld\n attributes ",(long)t.bw,(long)t.br,(long)t.bd,(long)t.mw,(long)t.mr,(long)t.md,(long)t.bn,(long)t.bu,(long)t.mm,(long)t.mu); unsigned f=fl|((fl&SHR_FARM)?SHR_DROP:0)|(ad?SHR_APPDATA:0); if(!f) e+="none"; if(f&SHR_DROP) e+="drop "; if(f&SHR_APPDATA) e+="appdata "; if(f&SHR_FARM) e+="farm "; if(f&SHR_MLOCK) e+="mlock "; if(f&SHR_SYNC) e+="sync "; e+=fmt("\n app-data %zu\n",ad?app.size():0); if(ad&&v>=1) e+=app+"\n"; if(!G->exited) return "status did not end"; if(!G->outbad&&G->out!=e) return "the output differs from the ring's state: "+G->out; if(G->outbad&&(G->out.size()>e.size()||e.compare(0,G->out.size(),G->out))) return "the output is not a prefix of the ring's state";
      if(v==2&&!G->werrs){ int k=sim_file_find("appout"); if(k<0||K->f[k].size!=app.size()||memcmp(sim_file_data(k),app.data(),app.size())) return "the app-data was not copied out completely"; if(G->code) return "status failed"; } 
      if(v==2&&G->werrs&&!G->outbad&&G->code==0) return "status succeeded although the app-data could not be written"; return ""; }; o.push_back(s); }
  { TScen s; s.name="status-missing"; s.argv={"shr-tool","status","nosuch"}; s.setup=[]{ fresh(); }; s.oracle=[]()->str{ return G->exited&&G->code&&G->out.empty()?"":"status of a missing ring did not fail"; }; o.push_back(s); }
  for(vs a: {vs{"shr-tool"},vs{"shr-tool","nonsense"},vs{"shr-tool","read"},vs{"shr-tool","write"},vs{"shr-tool","writehex"},vs{"shr-tool","writehex","00"},vs{"shr-tool","writefile"},vs{"shr-tool","writefile","data"},vs{"shr-tool","status"},vs{"shr-tool","read","-z","src"},vs{"shr-tool","pub"},vs{"shr-tool","pub",":1"},vs{"shr-tool","sub"},vs{"shr-tool","tee","src"}}){ TScen s; s.name="usage"; for(size_t i=1;i<a.size();i++) s.name+="-"+a[i]; std::replace(s.name.begin(),s.name.end(),':','_'); s.argv=a; s.in="x\n"; s.setup=[]{ fresh(); mkring("src",100); openw(); wmsg("abc"); sim_file_create("data","hi",2); }; s.oracle=[]()->str{ if(!G->exited||!G->code) return "a wrong command line did not fail"; if(stat_of("src").mu!=1||stat_of("src").mw!=1) return "a wrong command line changed the ring"; return ""; }; o.push_back(s); }
}
// ---------------------------------------------------------------- C24: create
static void c24(bool th,std::vector<TScen>&o){
  (void)th; struct SZ { const char*a; long v; bool ok; }; SZ sz[]={{"1",1,true},{"7",7,true},{"100",100,true},{"1k",1024,true},{"2K",2048,true},{"100k",102400,true},{"0",0,false},{"x",0,false},{"10q",0,false},{"k",0,false},{"999999999t",0,false},{"17179869184g",0,false},{"16777216t",0,false},{"16777217t",0,false},{"-1",0,false},{"9223372036854775807",0,false}};
  auto chk=[](const char*n,long v,unsigned fl,long mm,const str&app)->str{ struct shr_stat t=stat_of(n); if(g_viol) return ""; if((long)t.bn!=v) return fmt("ring %s has size %ld instead of %ld",n,(long)t.bn,v); if((t.flags&(SHR_DROP|SHR_FARM|SHR_SYNC|SHR_MLOCK|SHR_APPDATA))!=(fl|((fl&SHR_FARM)?SHR_DROP:0)|(app.empty()?0:SHR_APPDATA))) return fmt("ring %s has attributes %x",n,t.flags); if(mm&&(long)t.mm!=mm) return fmt("ring %s has %ld slots instead of %ld",n,(long)t.mm,mm); if(t.mu||t.bu||t.mw) return "a new ring is not empty";
    static str got_; got_.clear(); run_env(2,[=]{ shr*s=shr_open(n,SHR_RDONLY|SHR_NONBLOCK); if(!s) return; void*p=nullptr; size_t l=0; if(shr_appdata(s,&p,nullptr,&l)==0&&p) got_.assign((char*)p,l); shr_close(s); }); if(got_!=app) return "the ring's app-data is not the file's content"; return ""; };
  for(auto&z:sz){ for(int nr=1;nr<=2;nr++){ TScen s; s.name=fmt("create-s%s-%d",z.a,nr); s.argv={"shr-tool","create","-s",z.a,"r1"}; if(nr==2) s.argv.push_back("r2"); s.setup=[]{ fresh(); }; SZ zz=z; s.oracle=[=]()->str{ if(!G->exited) return "create did not end"; if(zz.ok!=(G->code==0)) return fmt("exit status %d",G->code); for(int i=1;i<=nr;i++){ str n=fmt("r%d",i); if(!zz.ok){ if(sim_file_find(n.c_str())>=0) return "a failed create left a ring behind"; continue; } str e=chk(n.c_str(),zz.v,0,0,""); if(!e.empty()) return e; } return ""; }; o.push_back(s); } }
  // sizes beyond what the file system takes: what is asked of it is what the suffix says
  { struct { const char*a; uint64_t v; } big[]={{"1m",1048576},{"3M",3145728},{"5m",5242880},{"1g",1ull<<30},{"3G",3ull<<30},{"4g",4ull<<30},{"5g",5ull<<30},{"1t",1ull<<40},{"2T",2ull<<40},{"5000t",5000ull<<40},{"4294967295",4294967295ull},{"4294967296",4294967296ull},{"4194305k",4194305ull<<10},{"4097m",4097ull<<20},{"100000000000",100000000000ull}};
    for(auto&b:big) for(int N: {0,3}){ uint64_t v=b.v; TScen s; s.name=fmt("create-big-%s-%d",b.a,N); s.argv={"shr-tool","create","-s",b.a}; if(N){ s.argv.push_back("-N"); s.argv.push_back(fmt("%d",N)); } s.argv.push_back("r1"); s.setup=[]{ fresh(); };
      s.oracle=[=]()->str{ uint64_t asked=g_last_trunc; if(!G->exited||G->code==0) return "creating a ring the file system has no room for succeeded"; if(sim_file_find("r1")>=0) return "a failed create left a ring behind"; run_env(1,[=]{ if(N) shr_init((char*)"cmp",v,SHR_MAXMSGS_2,(size_t)N); else shr_init((char*)"cmp",v,0); }); if(asked!=g_last_trunc) return fmt("a file of %zu bytes was asked for instead of %zu",(size_t)asked,(size_t)g_last_trunc); return ""; }; o.push_back(s); } }
  // several rings, any of which cannot be made
  for(int ad=0;ad<2;ad++) for(int N: {0,4}) for(int nr=1;nr<=3;nr++) for(int bad=0;bad<(1<<nr);bad++){ TScen s; s.name=fmt("create-several-%d-%d-%d-%d",nr,bad,ad,N); s.argv={"shr-tool","create","-s","50"}; str app=ad?"apps":""; if(ad){ s.argv.push_back("-A"); s.argv.push_back("data"); } if(N){ s.argv.push_back("-N"); s.argv.push_back(fmt("%d",N)); } for(int i=0;i<nr;i++) s.argv.push_back(fmt(bad>>i&1?"nodir/r%d":"r%d",i)); s.setup=[=]{ fresh(); if(ad) sim_file_create("data",app.data(),app.size()); };
    s.oracle=[=]()->str{ if(!G->exited) return "create did not end"; if(bad&&!G->code) return "create reports success although a ring could not be made"; if(!bad&&G->code) return fmt("exit status %d",G->code); for(int i=0;i<nr;i++) if(!(bad>>i&1)){ str n=fmt("r%d",i); if(sim_file_find(n.c_str())<0){ if(!bad) return "a ring was not made"; continue; } str e=chk(n.c_str(),50,0,N,app); if(!e.empty()) return e; } return ""; }; o.push_back(s); }
  for(int m=0;m<32;m++) for(int N: {0,1,5}) for(int ad=0;ad<2;ad++){ str ms; unsigned fl=0; if(m&1){ ms+="d"; fl|=SHR_DROP; } if(m&2){ ms+="f"; fl|=SHR_FARM; } if(m&4){ ms+="k"; } if(m&8){ ms+="l"; fl|=SHR_MLOCK; } if(m&16){ ms+="s"; fl|=SHR_SYNC; } TScen s; s.name=fmt("create-m%d-n%d-a%d",m,N,ad); s.argv={"shr-tool","create","-s","50"}; if(m) { s.argv.push_back("-m"); s.argv.push_back(ms); } if(N){ s.argv.push_back("-N"); s.argv.push_back(fmt("%d",N)); } str app=ad?"some\0app":""; if(ad){ app=str("so\0me",5); s.argv.push_back("-A"); s.argv.push_back("data"); } s.argv.push_back("r1"); 
    for(int pre=0;pre<2;pre++){ TScen t=s; t.name+=pre?"-existing":""; t.setup=[=]{ fresh(); if(ad) sim_file_create("data",app.data(),app.size()); if(pre){ mkring("r1",77,SHR_DROP,4); openw("r1"); wmsg("old"); } }; bool keep=pre&&(m&4); t.oracle=[=]()->str{ if(!G->exited||G->code) return fmt("exit status %d",G->code); if(keep){ struct shr_stat st=stat_of("r1"); if(g_viol) return ""; vs g=drain(0,"r1"); if(g!=vs{"old"}||st.bn!=77) return "keep-if-exists did not keep the ring"; return ""; } return chk("r1",50,fl,N,app); }; o.push_back(t); } }
  for(const char*m: {"x","dx","D","d,f","-"}){ TScen s; s.name=str("create-badmode-")+m; s.argv={"shr-tool","create","-s","50","-m",m,"r1"}; s.setup=[]{ fresh(); }; s.oracle=[]()->str{ if(!G->exited||!G->code) return "a bad mode was accepted"; if(sim_file_find("r1")>=0) return "a bad mode created a ring"; return ""; }; o.push_back(s); }
  { TScen s; s.name="create-nosize"; s.argv={"shr-tool","create","r1"}; s.setup=[]{ fresh(); }; s.oracle=[]()->str{ if(!G->exited||!G->code||sim_file_find("r1")>=0) return "create without a size did not fail"; return ""; }; o.push_back(s); }
  for(int k=0;k<2;k++){ TScen s; s.name=fmt("create-badapp-%d",k); s.argv={"shr-tool","create","-s","50","-A","data","r1"}; s.setup=[=]{ fresh(); if(k) sim_file_create("data","",0); }; s.oracle=[]()->str{ if(!G->exited||!G->code||sim_file_find("r1")>=0) return "create with a missing or empty app-data file did not fail"; return ""; }; o.push_back(s); }
}
// ---------------------------------------------------------------- C25: mount
static void c25(bool th,std::vector<TScen>&o){
  static const char*HUGE="/proc/sys/vm/nr_hugepages"; static str mark="unset";
  struct SZ { const char*a; unsigned long v; bool ok; }; std::vector<SZ> sizes={{nullptr,0,true},{"1000",1000,true},{"3k",3072,true},{"2M",2097152,true},{"9g",9ul<<30,true},{"3t",3ul<<40,true},{"x",0,false},{"5q",0,false}};
  std::vector<vs> subs={{},{"a"},{"a","b"},{"sub1","sub2","sub3"}}; std::vector<const char*> dirs={"d0","d1","d2","d3","d4","d5","f0","dx"}; std::vector<const char*> types={nullptr,"ramfs","tmpfs","hugetlbfs"};
  auto isram=[](const str&d){ return d=="d1"||d=="d2"||d=="d5"; }; auto usable=[](const str&d){ return d=="d0"||d=="d3"||d=="d4"; };
  for(auto*d:dirs) for(auto*t:types) for(auto&z:sizes) for(int sb=-1;sb<(int)subs.size();sb++) for(int H: {0,7}){
    if(!th&&H&&z.a&&sb>0&&sb<3) continue;
    TScen s; s.name=fmt("mount-%s-%s-%s-%d-%d",d,t?t:"default",z.a?z.a:"nosize",sb,H); vs opt={"shr-tool","mount"}; if(t){ opt.push_back("-t"); opt.push_back(t); } if(z.a){ opt.push_back("-s"); opt.push_back(z.a); } if(sb>=0) opt.push_back("-d"); if(H){ opt.push_back("-H"); opt.push_back(fmt("%d",H)); } opt.push_back(d); if(sb>0) for(auto&x:subs[sb]) opt.push_back(x); else if(sb<0) opt.push_back("stray"); s.argv=opt; s.werr=th?2:1; s.shortw=1;
    str D=d; SZ Z=z; str want="mount "+D+" "+(t?t:"ramfs")+" "+(z.v?fmt("size=%lu",z.v):str("-"))+"\n"; if(sb>0) for(auto&x:subs[sb]) want+="mkdir "+D+"/"+x+"\n";
    s.setup=[=]{ fresh(); if(H) sim_file_create(HUGE,mark.data(),mark.size()); };
    s.oracle=[=]()->str{ if(!G->exited) return "mount did not end"; str hp; if(H){ int k=sim_file_find(HUGE); if(k<0) return "harness: no huge page file"; hp.assign((char*)sim_file_data(k),K->f[k].size); } bool hset=H&&hp!=mark; long hv=atol(hp.c_str());
      if(!Z.ok){ if(!G->code) return "a bad size was accepted"; if(!G->mounts.empty()||hset) return "a wrong command line changed the system"; return ""; }
      if(isram(D)){ if(!G->mounts.empty()||hset) return "something was done to a directory that is a RAM disk already: "+G->mounts; return ""; }
      if(!usable(D)){ if(!G->code) return "mounting on something unusable is reported as success"; if(!G->mounts.empty()) return "harness: impossible mount"; return ""; }
      if(G->werrs){ if(!G->code) return "a failure is reported as success"; if(want.compare(0,G->mounts.size(),G->mounts)) return "after a failure: "+G->mounts; if(hset&&G->mounts!=want) return "went on after a failure"; return ""; }
      if(G->code) return fmt("exit status %d",G->code); if(G->mounts!=want) return "did "+G->mounts+"instead of "+want; if(H&&hv!=H) return "the number of huge pages was not set"; return ""; }; o.push_back(s); }
  for(auto*d:dirs) for(int arg=0;arg<2;arg++){ TScen s; s.name=fmt("mount-u-%s-%d",d,arg); s.argv={"shr-tool","mount","-u",d}; if(arg) s.argv={"shr-tool","mount","-s","1k","-u",d}; s.werr=1; str D=d; s.setup=[]{ fresh(); };
    s.oracle=[=]()->str{ if(!G->exited) return "mount -u did not end"; bool is=D=="d1"||D=="d2"||D=="d4"||D=="d5"; if(G->werrs||!is){ if(!G->code) return "a failed unmount is reported as success"; if(!G->mounts.empty()) return "harness: impossible unmount"; return ""; } if(G->code) return fmt("exit status %d",G->code); if(G->mounts!="umount "+D+"\n") return "did "+G->mounts; return ""; }; o.push_back(s); }
  // query: every kind of directory, sizes on both sides of every unit, every degree of use
  struct FS { long bs,b; }; std::vector<FS> fs={{4096,16384},{1,1},{1,1023},{1,1024},{1,1025},{512,3},{1024,1023},{1024,1024},{4096,255},{4096,256},{4096,262143},{4096,262144},{4096,262145},{4096,1000000},{4096,3ul<<30},{4096,0}};
  for(auto*d:dirs) for(auto&f:fs) for(int u=0;u<=(isram(d)&&f.b?8:0);u++){ long fr=f.b*u/8; if(u==7) fr=f.b-1; TScen s; s.name=fmt("mount-q-%s-%ld-%ld-%d",d,f.bs,f.b,u); s.argv={"shr-tool","mount","-q",d}; s.fsbs=f.bs; s.fsblocks=f.b; s.fsfree=fr; str D=d; FS F=f; s.setup=[]{ fresh(); };
    s.oracle=[=]()->str{ if(!G->exited) return "mount -q did not end"; if(!G->mounts.empty()) return "a query changed the system"; str e; long by=F.bs*F.b; if(D=="d2") e=D+": ramfs (unbounded size)\n"; else if(D=="d5") e=D+": hugetlbfs (unbounded size)\n"; else if(D=="d1"){ if(F.b==0){ if(G->out.find("d1: tmpfs")!=0||G->out.find('%')!=str::npos) return "a tmpfs without a limit is reported as: "+G->out; return ""; } e=D+": tmpfs of size "+(by<1024?fmt("%ld bytes",by):by<(1<<20)?fmt("%ld kb",by>>10):by<(1<<30)?fmt("%ld mb",by>>20):fmt("%ld gb",by>>30))+fmt(" (%ld%% used)\n",(F.b-fr)*100/F.b); } else e=D+": not a ramdisk\n";
      if(G->out!=e) return "said "+G->out+"instead of "+e; return ""; }; o.push_back(s); }
}
// ---------------------------------------------------------------- C26: command lines and delegates
static std::map<str,vs> ringstate(){ std::map<str,vs> m; for(const char*n: {"src","dst","third"}) run_pure([&]{ int k=sim_file_find(n); if(k<0) return; m[n].push_back(str((char*)sim_file_data(k),K->f[k].size)); }); return m; }
static void c26(bool th,std::vector<TScen>&o){
  static const char*cmds[]={"status","create","mount","write","writehex","writefile","read","readhex","pub","sub","tee"};
  // delegates: every unknown command name and every length of path around the limit
  for(const char*c: {"foo","x","","Read","reads","statu","-b","foo bar","read-hex","../foo"}) for(int ex=0;ex<3;ex++) for(int na=0;na<3;na++){ TScen s; s.name=fmt("delegate-%s-%d-%d",c,ex,na); std::replace(s.name.begin(),s.name.end(),' ','_'); std::replace(s.name.begin(),s.name.end(),'/','_'); s.argv={"shr-tool",c}; if(na>=1) s.argv.push_back("-m x"); if(na>=2) s.argv.push_back("src"); s.self="/opt/some where/shr-tool"; str path=s.self+"-"+c; s.execs={s.self}; if(ex) s.execs.push_back(path); s.noexec=ex==2; vs av=s.argv; s.setup=[]{ fresh(); mkring("src",50); };
    s.oracle=[=]()->str{ if(!G->exited) return "the tool did not end"; if(ex!=1){ if(!G->execd.empty()) return "harness: impossible exec"; return G->code?"":"an unknown command succeeded"; } str w=path+"|"+path; for(size_t i=2;i<av.size();i++) w+="|"+av[i]; if(G->execd!=w) return "ran "+G->execd+" instead of "+w; return ""; }; o.push_back(s); }
  for(const char*c:cmds){ TScen s; s.name=str("delegate-known-")+c; s.argv={"shr-tool",c,"-h"}; s.execs={s.self,s.self+"-"+c}; s.setup=[]{ fresh(); }; s.oracle=[]()->str{ if(!G->execd.empty()) return "a built-in command was delegated"; if(!G->exited||!G->code) return "a wrong command line did not fail"; return ""; }; o.push_back(s); }
  { std::vector<std::pair<int,int>> l; for(int self: {1,2,9,4000,4089,4090,4091,4092,4093,4094,4095,4096,4097,5000}) for(int c: {0,1,2,3,4,5,6,85,86,87,88,94,95,96,97,4083,4084,4085,4086,4087,4090,4091,4092,4093,4094,4095,4096,4100}) if(self<10||c<10||self+c<4200) l.push_back({self,c});
    for(auto&x:l){ TScen s; s.name=fmt("delegate-length-%d-%d",x.first,x.second); s.self="/"+str(x.first-1,'s'); str c(x.second,'c'); s.argv={"shr-tool",c,"arg"}; str path=s.self+"-"+c; s.execs={s.self,path}; bool fits=x.first<4096&&path.size()+1<=4096; s.setup=[]{ fresh(); }; s.oracle=[=]()->str{ if(!G->exited) return "the tool did not end"; if(!fits){ if(!G->execd.empty()) return "ran a program whose path was cut short"; return G->code?"":"an unknown command succeeded"; } if(G->execd!=path+"|"+path+"|arg") return "did not run the delegate"; return ""; }; o.push_back(s); } }
  // every short command line: it ends or streams, never crashes, and leaves alone the rings it does not name
  static const char*tok[]={"src","dst","nosuch","-b","-N","-s","-m","-A","-P","-v","1","10","k","d","data","","-q","-u","-d","-t","-H","d0","d1","third","5000","localhost:5000","0a","--","-N3","-s9","-mx","-"};
  int NT=sizeof tok/sizeof*tok, deep=th?4:3, core=th?NT:16;
  for(const char*c:cmds) for(int f=-1;f<NT;f++){ TScen s; s.name=fmt("line-%s-%d",c,f); str C=c; s.big=true;
    s.args=[=]{ vs a={"shr-tool",C}; if(f>=0){ a.push_back(tok[f]); for(int i=1;i<deep;i++){ int lim=i>=2?core:NT; int k=pick(lim+1,"next argument"); if(k==0) break; a.push_back(tok[k-1]); } } return a; };
    static std::map<str,vs> before; s.in="l\n"; s.connfail=false; s.net=prefix("net"); s.netend=1;
    s.setup=[]{ fresh(); mkring("src",50); mkring("dst",40); mkring("third",30); openw(); wmsg("abc"); wmsg("de"); sim_file_create("data","hi",2); run_env(1,[]{ shr_close(wr); }); wr=nullptr; before=ringstate(); };
    s.oracle=[=]()->str{ bool stream=C=="pub"||C=="sub"||C=="tee"; bool blk=false; const vs&a=S->argv; for(auto&x:a) if(x=="-b") blk=true; if(!G->exited&&!stream&&!((C=="read"||C=="readhex")&&blk)&&C!="write") return "the command does not end"; 
      std::map<str,vs> now=ringstate(); for(auto&b:before){ bool named=false; for(size_t i=2;i<a.size();i++) if(a[i]==b.first) named=true; if(!now.count(b.first)) return "ring "+b.first+" is gone"; if((!named||C=="status"||C=="mount")&&C!="x"){ bool same=now[b.first]==b.second; if(!same&&C=="status"&&named) same=stat_of(b.first.c_str()).mu==(b.first=="src"?2u:0u)||std::find(a.begin(),a.end(),"-A")!=a.end(); if(!same) return "ring "+b.first+" was changed"; } }
      if(a.size()==2&&(!G->exited||!G->code)) return "a command line without arguments did not fail";
      for(const char*n: {"src","dst","third"}) if(!(C=="status"&&std::find(a.begin(),a.end(),"-A")!=a.end())) { stat_of(n); if(g_viol) return ""; } return ""; }; o.push_back(s); }
}
// ---------------------------------------------------------------- C30: the addresses of pub and sub
static void c30(bool th,std::vector<TScen>&o){
  struct { const char*h; std::vector<str> ip; } hosts[]={{"",{"0.0.0.0"}},{"localhost:",{"127.0.0.1"}},{"127.0.0.1:",{"127.0.0.1"}},{"10.200.3.4:",{"10.200.3.4"}},{"255.1.128.254:",{"255.1.128.254"}},{"multi:",{"10.1.2.3","10.1.2.4"}},{"0.0.0.0:",{"0.0.0.0"}},{"nohost:",{}},{"256.1.1.1:",{}}};
  std::vector<str> good={"1","80","0080","255","256","5000","32768","65280","65535"}, bad={"0","65536","-1","x","","70000","131072","4294967296","4294972296","99999999999","18446744073709556616","-60536","5000x","5 000","0x50"};
  if(th) for(int p=2;p<65535;p+=(p<600?1:p%256==255?2:127)) good.push_back(fmt("%d",p));
  for(auto&h:hosts) for(int okp=0;okp<2;okp++) for(auto&p:okp?good:bad) for(int sub=0;sub<2;sub++) for(int opt=0;opt<3;opt++){ if(sub&&!strcmp(h.h,"0.0.0.0:")) continue; if(opt&&p!="5000"&&p!="x"&&p!="65535") continue; if(sub&&opt==1) continue;
    bool valid=okp&&!h.ip.empty()&&!(sub&&!*h.h); std::vector<str> ip=h.ip; TScen s; s.name=fmt("%s-%s%s-%d",sub?"sub":"pub",h.h,p.c_str(),opt); for(char&c:s.name) if(c==':'||c==' ') c='_'; s.argv={"shr-tool",sub?"sub":"pub",h.h+p}; if(opt==1) s.argv.push_back("-P"); if(opt==2) s.argv.push_back("-v"); s.argv.push_back(sub?"dst":"src"); s.net=frames({2}); s.netend=0; s.segs=0; 
    s.setup=[]{ fresh(); mkring("src",50); mkring("dst",50); openw(); wmsg(msg(1,3)); };
    s.oracle=[=]()->str{ size_t got=stat_of("dst").mw; if(g_viol) return ""; if(stat_of("src").mu!=1) return "a message was consumed"; if(!valid){ if(!G->exited||!G->code) return "a bad address did not end the tool with an error"; if(!G->addr.empty()||got) return "a bad address was used: "+G->addr; return ""; }
      if(G->exited) return "a good address ended the tool"; for(auto&a:ip) if(G->addr==(sub?"connect "+a+":"+fmt("%d",atoi(p.c_str()))+";":"bind "+a+":"+fmt("%d",atoi(p.c_str()))+";listen;")) return sub&&got!=1?str("the subscription does not deliver"):str(); return "not the address given: "+G->addr; }; o.push_back(s); }
  // a publisher starts again although connections of an earlier one linger; failing steps end it
  for(int i=0;i<2;i++) for(const char*a: {"5000","localhost:5000"}){ TScen s; s.name=fmt("pub-%s-%d",i?"fails":"again",*a); s.argv={"shr-tool","pub",a,"src"}; s.timewait=!i; s.werr=i; s.netfail=true; s.setup=[]{ fresh(); mkring("src",50); openw(); wmsg(msg(1,3)); };
    s.oracle=[=]()->str{ if(stat_of("src").mu!=1) return "a message was consumed"; if(G->werrs){ if(!G->exited||!G->code) return "a step of starting to listen failed and the publisher went on"; return ""; } if(G->exited||!G->bound||!G->listening) return "the publisher did not start"; return ""; }; o.push_back(s); }
  { TScen s; s.name="sub-fails"; s.argv={"shr-tool","sub","multi:5000","dst"}; s.werr=1; s.netfail=true; s.net=frames({2}); s.segs=0; s.setup=[]{ fresh(); mkring("dst",50); }; s.oracle=[]()->str{ if(G->exited&&(!G->code||!G->werrs)) return "the subscriber ended"; if(!G->exited&&!G->subconn) return "a connection failed and the subscriber went on"; return ""; }; o.push_back(s); }
}
void tool_scenarios(const str&p,bool th,std::vector<TScen>&o){ if(p=="C18") c18(th,o); if(p=="C19") c19(th,o); if(p=="C20") c20(th,o); if(p=="C24") c24(th,o); if(p=="C25") c25(th,o); if(p=="C26") c26(th,o); if(p=="C30") c30(th,o); }
