#pragma once
#include "model.h"
#include <functional>
#include <map>
struct shr;

struct Act { Op op; Res res; struct shr *h[MAXH]; int evtfd[4]; int nopen; int fd0, map0; int64_t al0; void*bwmem; int bwlock; void*bw[16]; int bwfd[16]; int nbw; };
struct World {
  Act A[NPROC]; Spec spec; int pc[NPROC]; int nops=0, kills=0, evtleft=0, nextid=1, respawns=0, deadgen=0; uint8_t wrote=0, power=0, intrs=0;
};
extern World *W;

struct Scenario {
  std::string name; int nproc=2;
  std::vector<std::pair<int,Op>> setup;            // executed one after the other before exploration starts
  std::vector<std::vector<Op>> prog;               // fixed programs (used when alpha is empty)
  std::function<void(int p, std::vector<Op>&)> alpha;   // operations p may start now
  std::vector<std::pair<int,Op>> epilogue;         // executed at every terminal state by processes that are idle
  std::vector<std::vector<Op>> reborn;             // program of a process started in place of a killed one
  bool reuse_pid=true;
  int depth=6; bool micro=false; SimCfg cfg;
  int kills=0; uint32_t killmask=~0u; int intrs=0; int evts=0; int evtinit=0; int faults=0; int faultops_after_setup=1;
  bool powerfail=false; bool init_race=false; bool leakcheck=true, learn=false; bool drain=false; 
  int shards=1, splitdepth=3; uint64_t max_states=6000000; bool conform=false; bool drain_all=false;
  std::function<bool(std::string&)> inv;           // extra invariant at quiescent states
  std::function<bool(std::string&)> final_inv;
};
struct JobResult { uint64_t states=0, transitions=0, leaves=0, execs=0, syscalls=0, quiescent=0, blocked=0, faults=0, kills=0, outcomes=0, dedup=0; int capped=0, viol=0; double secs=0; char scen[64]; char msg[600]; char replay[200]; char sample[1500]; uint64_t racy=0, unmodelled=0; int maxdepth=0; uint64_t ntraces=0; };
void run_job(Scenario&s,int shard,int nshards,JobResult&r,const char*outdir,const char*prop);
int replay_file(const char*path, std::vector<Scenario>&all);
void build_scenarios(const std::string&prop, bool thorough, std::vector<Scenario>&out);

// op constructors
Op mk(OpK k,int h=0,uint32_t a=0,uint32_t b=0);
Op oinit(int r,int cfg); Op oopen(int h,int r,uint32_t flags); Op owrite(int h,uint32_t len); Op owritev(int h,std::vector<uint32_t> lens); Op owritevn(int h,int n,uint32_t len);
