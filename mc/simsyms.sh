#!/bin/bash
# usage: simsyms.sh OUT.o SIM.o IN.o... : link IN.o together and redirect every libc symbol the simulator provides.
set -e
out=$1; sim=$2; shift 2
tmp=$(mktemp -d)
ld -r -o $tmp/a.o "$@"
nm --defined-only $sim | awk '$2=="T"||$2=="W"{print $3}' | grep '^sim_' | sort -u > $tmp/have
[ -n "$PREFER" ] && nm --defined-only $PREFER | awk '$2=="T"||$2=="W"{print $3}' | grep "^simt_" | sort -u > $tmp/prefer || : > $tmp/prefer
nm -u $tmp/a.o | awk '{print $2}' | sort -u > $tmp/need
: > $tmp/map
while read s; do
  b=$s
  case $s in
    fcntl64|open64|fstat64|mmap64|ftruncate64|readdir64|stat64|pread64|posix_fallocate64) b=${s%64};;
    __isoc99_*|__tsan_*) ;;
  esac
  if grep -qx "simt_$b" $tmp/prefer; then echo "$s simt_$b" >> $tmp/map; elif grep -qx "sim_$b" $tmp/have; then echo "$s sim_$b" >> $tmp/map; else echo "$s" >> $tmp/unmapped; fi
done < $tmp/need
ok='^(__tsan_.*|_GLOBAL_OFFSET_TABLE_|__stack_chk_fail|snprintf|__snprintf_chk|sprintf|__sprintf_chk|strerror|memchr|strchr|strrchr|strcmp|strncpy|strcpy|strstr|strtol|strtoul|strtoull|atoi|__isoc23_.*|__isoc99_.*|isdigit|isspace|toupper|tolower|__ctype_b_loc|qsort|stderr|stdout|stdin|optarg|optind|getopt|time|gettimeofday|clock_gettime|localtime|strftime|rand|srand|strnlen|strtod|tool_.*|shr_.*|inet_ntoa|hstrerror|__h_errno_location|optopt|opterr|environ|__memcpy_chk|htonl|ntohl|sysconf|getpagesize|__start_sut.*|__stop_sut.*|bcmp|strcat|strncat|__strcat_chk|strcasecmp|strncasecmp|strpbrk|strspn|strcspn|strtok|strtok_r|sscanf|isxdigit|isprint|memrchr|inet_.*|htons|ntohs|abs|sigaddset|sigismember|sigemptyset|sigaddset|sigfillset|sigprocmask|basename|__xpg_basename|getenv|sleep|usleep)$'
if [ -s $tmp/unmapped ]; then bad=$(grep -Ev "$ok" $tmp/unmapped || true); if [ -n "$bad" ]; then echo "note: symbols not simulated:" $bad >&2; echo $bad > $out.unsimulated; fi; fi
# what could do damage outside the simulation and is not simulated must not reach the real system
danger='^(rename|renameat|renameat2|link|linkat|symlink|symlinkat|truncate|unlink|unlinkat|rmdir|remove|mknod|mknodat|mkfifo|mkdir|mkdirat|chmod|fchmod|fchmodat|chown|lchown|fchown|fchownat|system|popen|fork|vfork|clone|posix_spawnp?|exec[lv]p?e?|execvpe|fexecve|kill|killpg|tkill|tgkill|raise|mount|umount2?|chroot|pivot_root|reboot|sethostname|set[er]*[ug]id|setrlimit|prlimit|setpriority|open|openat|openat2|creat|fopen|fopen64|freopen|fdopen|opendir|write|pwrite|writev|pwritev|ftruncate|fallocate|copy_file_range|sendfile|splice|utimes|utimensat|utime|setxattr|ptrace|process_vm_writev|syscall|shm_open|shm_unlink|mq_open|sem_open|sem_unlink|shmget|shmctl|semget|semctl|msgget|msgctl|mkstemp|mkostemp|mkdtemp|tmpfile|tempnam|swapon|swapoff|sysctl|nftw|ftw|bind|connect|listen|dup2|dup3|close_range|closefrom|munmap|mremap|mprotect|sbrk|brk)(64)?$'
if [ -s $tmp/unmapped ]; then grep -E "$danger" $tmp/unmapped > $tmp/danger || :; while read s; do echo "$s sim_unmodelled_call" >> $tmp/map; echo "note: $s is not simulated: calling it ends the check" >&2; done < $tmp/danger; fi
objcopy --redefine-syms=$tmp/map $tmp/a.o $tmp/b.o
if [ -n "$KEEPDATA" ]; then objcopy --rename-section .data=tooldata --rename-section .bss=toolbss $tmp/b.o $out; rm -rf $tmp; exit 0; fi
objcopy --rename-section .data=sutdata,alloc,load,data,contents --rename-section .bss=sutbss,alloc,load,data,contents --set-section-flags .bss=alloc,load,data,contents $tmp/b.o $out 2>/dev/null || objcopy --rename-section .data=sutdata $tmp/b.o $out
rm -rf $tmp
