#include "model.h"
std::vector<RingCfg> g_cfgs;
int add_cfg(uint64_t n,uint64_t mm,uint32_t flags,uint64_t applen,uint32_t appid){ g_cfgs.push_back({n,mm,flags,applen,appid,0}); return g_cfgs.size()-1; }
static inline uint64_t rotl(uint64_t x,int r){return x<<r|x>>(64-r);}
H128 hash_bytes(const void*p,size_t n,H128 s){ // 4-lane multiply-rotate hash
  const uint8_t*b=(const uint8_t*)p; uint64_t a=s.a^0x9E3779B97F4A7C15ull,c=s.b^0xC2B2AE3D27D4EB4Full,d=a*3+n,e=c*5^n; const uint64_t M1=0x9FB21C651E98DF25ull,M2=0xD6E8FEB86659FD93ull;
  while(n>=32){ uint64_t w[4]; memcpy(w,b,32); a=rotl((a^w[0])*M1,29); c=rotl((c^w[1])*M2,31); d=rotl((d^w[2])*M1,27); e=rotl((e^w[3])*M2,33); b+=32;n-=32; }
  while(n>=8){ uint64_t w; memcpy(&w,b,8); a=rotl((a^w)*M1,29); uint64_t t=a;a=c;c=d;d=e;e=t; b+=8;n-=8; }
  if(n){ uint64_t w=0; memcpy(&w,b,n); a=rotl((a^w^(n<<56))*M1,29); }
  a^=rotl(d,17); c^=rotl(e,43); a*=M2; c*=M1; a^=a>>32; c^=c>>29; a+=c; c+=rotl(a,23); a*=M1; c*=M2; a^=a>>28; c^=c>>32; return {a,c}; }
