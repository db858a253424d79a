// Model checking shr-tool: the compiled tool runs as process 0 of the simulated kernel; its peers
// (TCP clients and servers, terminals, other ring users, signals) are driven by enumerated choices.
#pragma once
#include "sim.h"
#include <functional>
#include <string>
#include <vector>
enum { OBJ_LISTEN=0, OBJ_SIG=100, OBJ_SUB=200 };      // 1..: client connections
struct Conn { int st=0;            // 0 in the accept queue, 1 accepted, 2 closed by the tool
  int peer=0;                      // 0 open, 1 sent FIN, 2 reset
  int in=0; std::string out; bool failed=false, other=false, resetseen=false; };
struct Ev { std::string name; std::function<void()> fn; std::function<bool()> guard; };
struct TScen {
  std::string name; std::vector<std::string> argv;
  std::function<void()> setup; std::vector<std::vector<Ev>> threads; std::function<std::string()> oracle;
  bool everywhere=false;           // other processes act at every system call of the tool, not only while it waits
  int shortw=0, werr=0;            // how many writes may be short / fail
  int segs=1000000;                // how many reads may be short
  std::vector<size_t> cuts;        // lengths offered for short transfers (empty: every length)
  std::string in; bool has_in=false;   // standard input
  std::string net; int netend=0;   // bytes the publisher sends; then 0 stays connected, 1 closes, 2 resets
  bool big=false;                  // large transfers: no merging of equal states
  bool connfail=false, timewait=false, netfail=false;   // connections are refused; earlier connections linger on the port
  std::function<std::vector<std::string>()> args;      // command line, when it is itself a choice
  std::string self="/sim/shr-tool"; std::vector<std::string> execs; bool noexec=false;   // the tool's own path; the programs that exist; they cannot be run
  long fsbs=4096, fsblocks=16384, fsfree=4096;         // what statfs answers
};
struct TG {                        // state of one execution
  std::vector<Conn> conn; std::string out; std::string obuf; bool outbad=false; int werrs=0, shorts=0, segs=0; size_t inpos=0;
  std::vector<int> sigs; int alarms=0; bool term=false; size_t netpos=0; bool netdead=false, neteof_seen=false; int exited=0, code=0; bool sigmask_pipe=false; bool bound=false; int sp=0; size_t outlim=0;
  std::vector<std::string> log; std::string mounts, cwd, execd, addr; bool reuse=false; bool subconn=false; bool listening=false; bool quiet=false;
};
extern TG *G; extern TScen *S;
int pick(int n, const char *what);                     // environment choice
void run_env(int p, std::function<void()> f);          // run f as simulated process p, to completion
void run_pure(std::function<void()> f);                // run it, then undo what it did to the simulated system
bool tool_alive(); bool conn_open(int obj);
void tool_scenarios(const std::string &prop, bool thorough, std::vector<TScen> &out);
