#include "explore.h"
#include <cstdlib>
// never called in the real runner: scenario callbacks only run under the simulator
int sim_lockcount(int){ return 0; } int64_t sim_alloccount(int){ return 0; } int sim_mapcount(int){ return 0; } int sim_fdcount(int){ return 0; }
int sim_file_find(const char*){ return -1; }
void sim_lock_census(int,int*,int*,int*){}

