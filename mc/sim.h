// Simulated kernel and coroutine runtime for model checking the real shr/bw code.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <string>
#include <vector>

// ---------- fixed address-space layout (identical in every run) ----------
static const uintptr_t ARENA_BASE = 0x100000000000ull;   // kernel struct
static const uintptr_t HEAP_BASE  = 0x110000000000ull;   // per-process heaps
static const size_t    HEAP_STRIDE= 64u<<20;
static const uintptr_t STACK_BASE = 0x120000000000ull;
static const size_t    STACK_SIZE = 256u<<10;
static const uintptr_t FCANON     = 0x130000000000ull;   // canonical view of file contents
static const uintptr_t FVIEW      = 0x131000000000ull;   // per-mapping views
enum { NPROC=8, NFILES=6, NVIEW=288, NFD=700, NDESC=1600, NSOCK=400, NEPOLL=160, NEPITEM=6, SQCAP=16, NLOCK=8 };
static const size_t FAREA = 1u<<20;

// ---------- kernel objects (POD, live in the arena) ----------
enum DType : uint8_t { D_NONE, D_FILE, D_SOCK, D_EPOLL, D_EVT, D_TEXT, D_STREAM, D_STD };
struct Desc { uint8_t type; uint8_t nonblock; int16_t obj; int32_t ref; int32_t off; };
struct LockRec { int16_t pid; int16_t type; int64_t start, end; };   // type 1=R 2=W, owner proc index
struct File {
  uint8_t used, linked, unmade; char name[40]; int32_t nref; uint64_t size; int32_t ino;
  LockRec lk[NLOCK]; int32_t nlk; uint8_t durable_valid; uint64_t durable_size;
};
struct Sock {
  uint8_t used, named, dead; char name[8]; int16_t peer; int16_t owner; int32_t ino; uint32_t gen, peergen;
  uint16_t qn; uint8_t ql[SQCAP];           // queued datagram lengths (entries past the table: as long as the last stored)
};
struct EpItem { int16_t fd; int16_t desc; uint32_t events; uint64_t data; };
struct Epoll { uint8_t used, n; EpItem it[NEPITEM]; };

enum PStat : uint8_t { PS_OFF, PS_IDLE, PS_RUN, PS_LOCK, PS_EPW, PS_CHOICE, PS_OPDONE, PS_DEAD };
struct MapRec { uint8_t used, priv; int16_t file; int16_t view; uint64_t len; int32_t dbg; };   // dbg: how many bytes from its start are locked into memory
struct Proc {
  uint8_t st; uint8_t endst; int32_t pid; int32_t err; void *sp;
  // pending point
  int32_t pk; int32_t pobj; int32_t pobj2; int64_t pstart, pend; int32_t ptype; int32_t ptmo;
  int32_t nalt, alt; uint32_t opno; uint32_t nsys;   // nsys: syscalls in current op
  int32_t faults_in_op; int32_t lockfail;
  uint8_t evt; uint8_t nintr, nintrw; // a signal interrupts the wait; how many did so in this call, and while waiting for data or space
  int16_t fds[NFD]; int32_t maxfd;
  MapRec map[NVIEW]; int32_t maxmap;
  uintptr_t brk; uintptr_t freel[24]; int64_t nalloc; int64_t bytes_alloc;
};
struct Kernel {
  Proc p[NPROC]; int32_t nproc;
  Desc d[NDESC]; int32_t maxdesc;
  File f[NFILES];
  Sock s[NSOCK]; int32_t maxsock;
  Epoll e[NEPOLL]; int32_t maxep;
  uint8_t evt[8];            // readiness of external event descriptors
  uint32_t name_ctr, ino_ctr, sgen;
  int32_t fault_budget;      // remaining injected failures
  int32_t faults_used;
};
extern Kernel *K;

// ---------- configuration of the environment (not part of the state) ----------
struct SimCfg {
  int qlen = 11;              // max queued datagrams per socket
  bool micro = false;         // yield at every visible system call
  bool faults = false;        // offer injected failures
  bool epchoice = false;      // explore which ready descriptor epoll reports
  bool unnamed_first = true;  // /proc/net/unix lists unnamed sockets before named ones
  bool proc_eacces = false;   // /proc/<pid>/fd of other processes not readable
  int zombies = 0;            // a dead process stays in the process table: 1 = its /proc/<pid>/fd is empty, 2 = it is not readable
  int unixpad = 0;            // sockets of other programs listed in /proc/net/unix (before and after)
  bool reuse_names = false;   // an autobound name is handed out again as soon as it is free
  bool fine = false;          // yield at accesses to racy bytes
  uint64_t max_access = 40000000ull; // per transition: livelock guard
  int max_sys = 20000;        // syscalls per op: livelock guard
  uint64_t lock_limit = 0;    // RLIMIT_MEMLOCK of every process (0: none)
  size_t stack_clear = 24*1024;
};
extern SimCfg SC;

// ---------- violations raised inside the simulation ----------
extern bool g_viol; extern char g_violmsg[400];
void sim_violation(const char *fmt, ...);

// ---------- coroutine control ----------
typedef void (*ActorFn)(int proc);
extern ActorFn g_actor_main;
extern int g_cur;              // running process or -1
void sim_boot();               // map everything (once per OS process)
void sim_reset(int nproc);     // pristine state
void sim_resume(int p);        // run process p until its next point
void actor_yield(uint8_t st);  // called by actor code
int  sim_choose(int n, int kind); // environment choice (0 = default)
bool sim_enabled(int p);       // can process p take a step now?
bool sim_ready_fd(int p, int fd);
void sim_kill(int p);
void sim_interrupt(int p);     // a signal handler runs in a sleeping process
void sim_track_access(bool on); void sim_access(const void*p,size_t n,bool w);

// ---------- snapshots ----------
typedef std::vector<uint8_t> Snap;
void sim_save(Snap &s);
void sim_restore(const Snap &s);
struct H128 { uint64_t a,b; bool operator==(const H128&o)const{return a==o.a&&b==o.b;} };
H128 sim_hash();
H128 hash_bytes(const void *p, size_t n, H128 seed);

// ---------- helpers for harnesses ----------
int  sim_file_find(const char *name);       // linked file or -1
uint8_t *sim_file_data(int f);
int  sim_file_create(const char *name, const void *data, size_t len);
void sim_file_unlink(int f);
void sim_set_evt(int i, int ready);
int  sim_evt_fd(int p, int evt);            // install event descriptor in process p
int  sim_fdcount(int p); int sim_mapcount(int p); int64_t sim_alloccount(int p); int sim_lockcount(int p);
bool sim_heap_check(int p);
void *sim_amalloc(size_t n); void sim_afree(void*);
void sim_lock_census(int p,int*locked,int*unlocked,int*mixed);   // files whose mappings are wholly locked into memory, not at all, or in part
uint64_t sim_lock_size(const char*name);   // bytes that count against the limit when a file is locked
int sim_waitfd_pending(int p,int fd);
void sim_respawn(int pi);
void sim_powerfail();                       // only msync'd contents survive, every process dies
uint64_t sim_stat_calls(); 
extern uint64_t g_racy_count; bool sim_racy_changed(); void sim_racy_reset();
extern uint64_t g_unmodelled;
extern bool g_init_writes_count;            // count shr_init's stores as mutable (create/open races)
extern bool g_in_init[NPROC];
extern int g_fault_kinds_seen;

// stream objects for shr-tool (single process, choice-driven); tool.cc supplies the tool_* functions
int sim_stream_fd(int p, int obj);
int sim_errno_set(int e);

extern uint64_t g_last_trunc;   // the size last asked of ftruncate
