#define _GNU_SOURCE
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <poll.h>
#include <dlfcn.h>
#include <malloc.h>
#include <time.h>
#include <dirent.h>
#include <sys/uio.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/socket.h>
#include "shr.h"
#define CHECK(c) do { if(!(c)){ fprintf(stderr,"line %d: %s does not hold\n",__LINE__,#c); exit(1); } } while(0)
#define MUST(c) do { if(!(c)){ fprintf(stderr,"line %d: cannot set up: %s\n",__LINE__,#c); exit(1); } } while(0)
#define REAL(name) ((__typeof__(&name))dlsym(RTLD_NEXT,#name))
