// Job pool, reporting, evidence.
#include "explore.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unistd.h>
#include <time.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <algorithm>
static double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
static std::string jesc(const std::string&s){ std::string r; for(char c:s){ if(c=='"'||c=='\\'){ r+='\\'; r+=c; } else if((unsigned char)c<32) r+=' '; else r+=c; } return r; }
int main(int argc,char**argv){
  if(argc>=3&&!strcmp(argv[1],"replay")){ FILE*f=fopen(argv[2],"r"); if(!f){perror(argv[2]);return 2;} char b[200]="",prop[100]=""; while(fgets(b,sizeof b,f)) if(sscanf(b,"property %99s",prop)==1) break; fclose(f); int rc=2; for(int th=0;th<2&&rc==2;th++){ g_cfgs.clear(); std::vector<Scenario> a; build_scenarios(prop,th,a); rc=replay_file(argv[2],a);} return rc; }
  if(argc<4){ fprintf(stderr,"usage: mc PROPERTY quick|thorough OUTDIR [scenario-substring]\n"); return 2; }
  std::string prop=argv[1]; bool thorough=!strcmp(argv[2],"thorough"); const char*out=argv[3]; const char*only=argc>4?argv[4]:nullptr;
  std::vector<Scenario> sc; build_scenarios(prop,thorough,sc); if(only){ std::vector<Scenario> k; for(auto&s:sc) if(s.name.find(only)!=std::string::npos) k.push_back(s); sc=k; }
  struct Job { int s,shard; }; std::vector<Job> jobs; for(size_t i=0;i<sc.size();i++) for(int k=0;k<sc[i].shards;k++) jobs.push_back({(int)i,k});
  if(jobs.empty()){ fprintf(stderr,"no scenarios for %s\n",prop.c_str()); return 2; }
  JobResult*res=(JobResult*)mmap(0,sizeof(JobResult)*jobs.size(),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); memset((void*)res,0,sizeof(JobResult)*jobs.size());
  int ncpu=sysconf(_SC_NPROCESSORS_ONLN); if(getenv("MC_JOBS")) ncpu=atoi(getenv("MC_JOBS")); if(ncpu<1) ncpu=1; double t0=now(); double limit=thorough?7200:780; if(getenv("MC_LIMIT")) limit=atof(getenv("MC_LIMIT"));
  std::vector<int> state(jobs.size(),0); std::map<pid_t,int> run; size_t next=0; std::vector<int> tries(jobs.size(),0); bool viol=false; int crashed=-1, timedout=0; std::vector<int> retry;
  while(true){
    while((int)run.size()<ncpu&&(next<jobs.size()||!retry.empty())&&!viol){ int j; if(!retry.empty()){ j=retry.back(); retry.pop_back(); } else j=next++; fflush(stdout); pid_t p=fork(); if(p==0){ struct rlimit rl={6ull<<30,6ull<<30}; setrlimit(RLIMIT_DATA,&rl); struct rlimit cl={0,0}; setrlimit(RLIMIT_CORE,&cl); run_job(sc[jobs[j].s],jobs[j].shard,sc[jobs[j].s].shards,res[j],out,prop.c_str()); _exit(0);} run[p]=j; tries[j]++; }
    if(run.empty()) break;
    int st; pid_t p=waitpid(-1,&st,WNOHANG); if(p==0){ usleep(5000); if(now()-t0>limit){ for(auto&r:run) kill(r.first,SIGKILL); timedout=1; while(waitpid(-1,&st,0)>0); break; } continue; } if(p<0) break;
    auto it=run.find(p); if(it==run.end()) continue; int j=it->second; run.erase(it);
    if(!WIFEXITED(st)||WEXITSTATUS(st)!=0){ if(WIFEXITED(st)&&WEXITSTATUS(st)==3){ fprintf(stderr,"simulator limit reached in %s\n",sc[jobs[j].s].name.c_str()); state[j]=3; }
      else if(tries[j]<2) retry.push_back(j); else { crashed=j; state[j]=2; viol=true; res[j].viol=1; snprintf(res[j].scen,64,"%s",sc[jobs[j].s].name.c_str()); snprintf(res[j].msg,sizeof res[j].msg,"the code under test destroyed its process (status %d) in scenario %s",st,sc[jobs[j].s].name.c_str()); snprintf(res[j].replay,sizeof res[j].replay,"%s/%s-%s-crash.trace",out,prop.c_str(),sc[jobs[j].s].name.c_str()); FILE*f=fopen(res[j].replay,"w"); if(f){ fprintf(f,"property %s\nscenario %s\nviolation %s\n",prop.c_str(),res[j].scen,res[j].msg); fclose(f);} } continue; }
    state[j]=1; if(res[j].viol){ viol=true; }
    if(getenv("MC_VERBOSE")) fprintf(stderr,"%-34s %d/%d states=%llu trans=%llu leaves=%llu out=%llu sys=%llu quies=%llu kills=%llu maxd=%d racy=%llu cap=%d %.1fs %s\n",res[j].scen,jobs[j].shard,sc[jobs[j].s].shards,(unsigned long long)res[j].states,(unsigned long long)res[j].transitions,(unsigned long long)res[j].leaves,(unsigned long long)res[j].outcomes,(unsigned long long)res[j].syscalls,(unsigned long long)res[j].quiescent,(unsigned long long)res[j].kills,res[j].maxdepth,(unsigned long long)res[j].racy,res[j].capped,res[j].secs,res[j].viol?res[j].msg:"");
  }
  uint64_t S=0,T=0,L=0,SY=0,Q=0,KI=0,B=0,O=0,DD=0; int cap=0; for(size_t j=0;j<jobs.size();j++){ S+=res[j].states;T+=res[j].transitions;L+=res[j].leaves;SY+=res[j].syscalls;Q+=res[j].quiescent;KI+=res[j].kills;B+=res[j].blocked;O=std::max(O,res[j].outcomes);DD+=res[j].dedup; cap+=res[j].capped; }
  int exitc=0; int nv=0; for(size_t j=0;j<jobs.size();j++) if(res[j].viol){ printf("scenario %s: %s\n",res[j].scen,res[j].msg); printf("VIOLATION property=%s replay=%s\n",prop.c_str(),res[j].replay); exitc=1; nv++; }
  int bad=0; for(size_t j=0;j<jobs.size();j++) if(state[j]==3) bad++;
  // partial evidence, completed by check.py
  char path[300]; snprintf(path,sizeof path,"%s/%s.mc.json",out,prop.c_str()); FILE*f=fopen(path,"w"); if(f){
    fprintf(f,"{\"states\":%llu,\"transitions\":%llu,\"complete_executions\":%llu,\"system_calls\":%llu,\"quiescent_states_judged\":%llu,\"kills\":%llu,\"blocking_points\":%llu,\"merged\":%llu,\"capped\":%d,\"timedout\":%d,\"violations\":%d,\"wall\":%.2f,\"scenarios\":[",(unsigned long long)S,(unsigned long long)T,(unsigned long long)L,(unsigned long long)SY,(unsigned long long)Q,(unsigned long long)KI,(unsigned long long)B,(unsigned long long)DD,cap,timedout,nv,now()-t0);
    bool first=true; for(size_t i=0;i<sc.size();i++){ uint64_t s=0,t=0,l=0,tr=0,o=0; int md=0,done=1; std::string sample; for(size_t j=0;j<jobs.size();j++) if(jobs[j].s==(int)i){ s+=res[j].states;t+=res[j].transitions;l+=res[j].leaves;tr+=res[j].ntraces;o=std::max(o,res[j].outcomes);md=std::max(md,res[j].maxdepth); if(sample.empty()) sample=res[j].sample; if(state[j]!=1||res[j].capped) done=0; }
      fprintf(f,"%s{\"name\":\"%s\",\"processes\":%d,\"scheduling\":\"%s\",\"op_bound\":%d,\"kills\":%d,\"faults\":%d,\"states\":%llu,\"transitions\":%llu,\"complete_executions\":%llu,\"distinct_results\":%llu,\"longest\":%d,\"complete\":%s,\"sample\":\"%s\"}",first?"":",",sc[i].name.c_str(),sc[i].nproc,sc[i].micro?"every system call":"every operation",sc[i].alpha?sc[i].depth:0,sc[i].kills,sc[i].faults,(unsigned long long)s,(unsigned long long)t,(unsigned long long)l,(unsigned long long)o,md,done?"true":"false",jesc(sample).c_str()); first=false; }
    fprintf(f,"]}\n"); fclose(f); }
  printf("%s: %zu scenarios, %llu states, %llu transitions, %llu complete executions, %.1f s%s\n",prop.c_str(),sc.size(),(unsigned long long)S,(unsigned long long)T,(unsigned long long)L,now()-t0,cap?" (state cap reached in some)":"");
  if(exitc==0&&(timedout||bad)) return 3;
  return exitc; }
