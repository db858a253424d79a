// Operations, observed results, and the reference model ("spec") of shr.
#pragma once
#include "sim.h"
#include <string>
#include <vector>
#include <cstring>

enum OpK : uint8_t { O_NONE, O_INIT, O_OPEN, O_CLOSE, O_WRITE, O_WRITEV, O_READ, O_READV, O_FLUSH, O_STAT, O_FSTAT,
  O_APPGET, O_APPSET, O_APPGS, O_SELFD, O_POLLFD, O_PROBE, O_FORGET, O_OPENBAD,
  O_BWOPEN, O_BWCLOSE, O_BWWAKE, O_BWWAIT, O_BWREADY, O_BWFORCE, O_BWPOLLFD };
// O_INIT : r=path  a=config number         O_OPEN : h r flags          O_CLOSE: h
// O_WRITE: h id a=len                      O_WRITEV: h id n lens[]     O_READ: h a=buflen
// O_READV: h a=buflen b=niov               O_FLUSH: h a=wait           O_STAT: h a=reset value (0 none)
// O_FSTAT: h a=reset                       O_APPGET: h a=0 allocate / else caller buffer size
// O_WRITEV with n>6: every message has length lens[0]
// O_OPENBAD: r flags a=kind (0 every truncation, 1 every corrupted magic byte, 2 foreign contents, 3 no such file, 4 every invalid combination of flags)
// O_BWOPEN: h a=0 wake 1 wait   O_BWFORCE: h a=ready   O_BWPOLLFD: h a=event number
// O_APPSET: h id a=size                    O_APPGS: h id a=size        O_POLLFD: h a=event number
struct Op { OpK k; uint8_t r; int16_t h; uint32_t flags; uint32_t id, a, b; uint16_t n; uint32_t lens[6]; };
enum { MAXH = 72 };
static inline uint32_t oplen(const Op&o,int i){ return o.n>6?o.lens[0]:o.lens[i]; }

struct Res {
  int64_t rc; uint32_t n; uint64_t bytes; uint64_t digest;   // reads: number of messages, bytes, digest of contents
  uint64_t st[14];                                           // O_STAT
  uint64_t sz;                                               // appdata
  uint32_t faults;                                           // failures injected during the call
  uint32_t lens[6];                                          // diagnostics
  uint8_t ready;                                             // selectable descriptor readable after the call (2: no such descriptor)
  uint8_t bad; char why[60];                                 // harness-detected misbehaviour of the call itself
};

// what is created by O_INIT
struct RingCfg { uint64_t n; uint64_t mm; uint32_t flags; uint64_t applen; uint32_t appid; int kind; };   // kind: 0 valid, 1 size not representable, 2 too large for the system
extern std::vector<RingCfg> g_cfgs; extern bool g_learn, g_race;   // learn default slot limits from shr_stat; creation is not atomic
int add_cfg(uint64_t n, uint64_t mm, uint32_t flags, uint64_t applen=0, uint32_t appid=0);
const char *ring_path(int r);

static inline uint8_t msg_byte(uint32_t id, uint32_t j){ uint32_t x=id*2654435761u ^ (j*40503u+0x9E37u*(j>>4)) ; x^=x>>15; x*=0x2c1b3c6du; x^=x>>12; x*=0x297a2d39u; x^=x>>15; return (uint8_t)x; }
uint64_t content_hash(uint32_t id, uint32_t len);
uint64_t bytes_hash(const uint8_t *p, size_t n);
static inline uint64_t fold(uint64_t d, uint64_t len, uint64_t h){ d^=len*0x9E3779B97F4A7C15ull; d=(d<<27|d>>37)*0xD6E8FEB86659FD93ull; d^=h; d=(d<<31|d>>33)*0x9FB21C651E98DF25ull; return d^(d>>29); }

struct Seg { uint32_t id, len; bool operator==(const Seg&o)const{return id==o.id&&len==o.len;} };
struct SRing {
  uint64_t n=0, mm=0; uint32_t flags=0; uint64_t applen=0; uint32_t appid=0; bool linked=true, live=true, ready=true;
  std::vector<Seg> q; uint64_t seq0=0, bytes=0;
  uint64_t st[6]={0,0,0,0,0,0}; uint64_t start=0;           // bw br mw mr md bd

};
struct SHandle { bool used=false; int8_t obj=-1; uint32_t flags=0; uint64_t pos=0, md=0; uint8_t evts=0; bool drained=false; bool r2w=false; bool unsure=false;
  std::vector<Seg> cache; uint64_t cb=0, cn=0; };
struct SPend { uint8_t st=0; uint8_t stage=0; bool sawblk=false; Op op; Res exp; };  // st: 0 none 1 called 2 took effect
struct Cfg {                                   // one possible state of the specification
  std::vector<SRing> obj; int8_t path[4]={-1,-1,-1,-1};
  std::vector<std::vector<SHandle>> h; std::vector<SPend> pd;
  H128 hash() const;
};
struct Spec {
  std::vector<Cfg> cs; std::vector<uint8_t> sawevt; std::vector<uint8_t> overlapw; bool faulty=false;
  std::vector<uint8_t> dead;
  void reset(int nproc);
  void call(int p, const Op&op);
  bool ret(int p, const Op&op, const Res&r, std::string &why);   // false: no explanation
  void killed(int p);
  void respawn(int p);
  void set_evt(int i, int ready);
  // judgements (true in every possible state)
  bool must_be_enabled(int p, std::string &why);     // pending op of p can complete in every configuration
  bool must_be_readable(int p, int h);
  bool must_not_be_readable(int p, int h);
  bool evt_pending(int p);
  H128 hash() const;
  void add_hash(H128 &h) const;
  void powerfail(bool keep_pending);
};
extern bool g_lax_bw;    // fault mode: judgements that a failed call may weaken
std::string op_str(const Op&o); std::string res_str(const Op&o,const Res&r); std::string cfg_str(const Cfg&c);
