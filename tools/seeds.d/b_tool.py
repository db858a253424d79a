TOOLSH='''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d) || exit 3; trap 'kill $(jobs -p) 2>/dev/null; rm -rf "$t"' EXIT
tool=/repo/_build/util/shr-tool; cd "$t"
newport(){ python3 -c 'import socket; s=socket.socket(); s.bind(("127.0.0.1",0)); print(s.getsockname()[1])'; }
listening(){ for i in $(seq 100); do grep -q ":$(printf %04X $1) [0-9A-F]*:0000 0A " /proc/net/tcp && return; sleep 0.1; done; exit 3; }
'''
seed('c18-third-piece','C18','a frame whose body takes three or more partial writes to send',
 'after a second partial write the publisher resumes at the wrong place, sending bytes twice',
 [(T,'        len -= nr;\n        out += nr;\n      } while (len > 0);\n','        len -= nr;\n        out = cfg.buf + nr;\n      } while (len > 0);\n')],None,TOOLSH+r'''
cat > p.c <<'X'
#define _GNU_SOURCE
#include <dlfcn.h>
#include <unistd.h>
#include <sys/stat.h>
ssize_t write(int fd,const void*b,size_t n){ struct stat s; ssize_t(*w)(int,const void*,size_t)=dlsym(RTLD_NEXT,"write"); if(n>4&&fstat(fd,&s)==0&&S_ISSOCK(s.st_mode)) n=4; return w(fd,b,n); }
X
gcc -w -shared -fPIC -o p.so p.c -ldl || exit 3
$tool create -s 1m ring || exit 3
port=$(newport); LD_PRELOAD=$t/p.so $tool pub 127.0.0.1:$port ring >/dev/null 2>&1 &
listening $port; printf 'abcdefghijklmnop\nxy\n' | $tool write ring
cat > c.py <<'X'
import socket,sys,struct
s=socket.create_connection(('127.0.0.1',int(sys.argv[1]))); s.settimeout(10); want=struct.pack('<I',16)+b'abcdefghijklmnop'+struct.pack('<I',2)+b'xy'; got=b''
while len(got)<len(want):
    d=s.recv(100)
    if not d: break
    got+=d
print(got); sys.exit(got!=want)
X
timeout 20 python3 c.py $port
''')
seed('c18-client-gone','C18','a client that disconnects, followed by a message in the ring',
 'the publisher keeps watching the ring without a client and aborts at the next message',
 [(T,'''  /* stop monitoring ring */
  sc = mod_epoll(0, cfg.fd);
  if (sc < 0) goto done;

  rc = 0;
''','''  rc = 0;
''')],None,TOOLSH+r'''
$tool create -s 1m ring || exit 3
port=$(newport); $tool pub 127.0.0.1:$port -P ring >/dev/null 2>&1 &
pid=$!; listening $port
python3 -c "import socket,sys; s=socket.create_connection(('127.0.0.1',$port)); s.close()"; sleep 0.5
echo hello | $tool write ring; sleep 0.5; kill -0 $pid || exit 1
timeout 10 python3 -c "
import socket,sys; s=socket.create_connection(('127.0.0.1',$port)); s.settimeout(5); sys.exit(s.recv(10)!=b'hello')"
''')
seed('c18-short-remainder','C18','a received chunk ending within the length prefix of a frame',
 'the one to three bytes of a length prefix at the end of a chunk are forgotten, and the rest of the stream is decoded out of step',
 [(T,'  if (c < eob) memmove(cfg.buf, c, eob - c);\n  cfg.sub_buf_used = eob - c;\n','  if (c < eob) memcpy(cfg.buf, c, eob - c);\n  cfg.sub_buf_used = (eob - c > 3) ? (eob - c) : 0;\n')],None,TOOLSH+r'''
$tool create -s 1m ring || exit 3
port=$(newport)
cat > s.py <<'X'
import socket,sys,struct,time
l=socket.socket(); l.setsockopt(socket.SOL_SOCKET,socket.SO_REUSEADDR,1); l.bind(('127.0.0.1',int(sys.argv[1]))); l.listen(1); open('up','w').close(); c,_=l.accept(); c.setsockopt(socket.IPPROTO_TCP,socket.TCP_NODELAY,1)
f=lambda b: struct.pack('<I',len(b))+b
d=f(b'abc')+f(b'defg')
c.sendall(d[:9]); time.sleep(0.5); c.sendall(d[9:]); time.sleep(0.5); c.close()
X
timeout 30 python3 s.py $port & for i in 1 2 3 4 5 6 7 8 9 10; do [ -e up ] && break; sleep 0.2; done
timeout 20 $tool sub 127.0.0.1:$port ring >/dev/null 2>&1
[ "$($tool read ring 2>/dev/null)" = abcdefg ]
''')
seed('c19-tee-full','C19','a destination ring that is full when a message arrives',
 'messages are not copied to the first destination ring while it is full',
 [(T,'      cfg.o1 = shr_open(ring1, SHR_WRONLY);\n','      cfg.o1 = shr_open(ring1, SHR_WRONLY | ((cfg.block == 0) ? SHR_NONBLOCK : 0));\n')],None,TOOLSH+r'''
$tool create -s 1m a && $tool create -s 10 b && $tool create -s 1m c || exit 3
$tool tee a b c >/dev/null 2>&1 & 
sleep 0.4; for i in 1 2 3 4; do echo "mess$i" | $tool write a; done; sleep 0.5
out=; for i in 1 2 3 4 5 6 7 8; do out="$out$($tool read b 2>/dev/null)"; sleep 0.2; done; echo "$out"
[ "$out" = mess1mess2mess3mess4 ] && [ "$($tool read c 2>/dev/null)" = mess1mess2mess3mess4 ]
''')
seed('c20-odd-hex','C20','writehex with an odd number of digits',
 'an odd number of hex digits is accepted and the last one silently dropped',
 [(T,'  if (len &  1) goto done; /* odd number of digits */\n','  if ((len &  1) && (len < 3)) goto done; /* odd number of digits */\n')],None,TOOLSH+r'''
$tool create -s 100 ring || exit 3
$tool writehex abc ring >/dev/null 2>&1; $tool writehex a ring >/dev/null 2>&1; $tool writehex 4142 ring || exit 1
[ "$($tool read ring 2>/dev/null)" = AB ]
''')
seed('c20-status-ready','C20','status of a ring that dropped messages',
 'status computes the unread messages from totals, ignoring dropped ones',
 [(T,'         stat.bu, stat.mm, stat.mu);\n','         stat.bu, stat.mm, stat.mw - stat.mr);\n')],None,TOOLSH+r'''
$tool create -s 10 -m d ring || exit 3
printf 'aaaaaa\nbbbbbb\n' | $tool write ring || exit 3
$tool status ring | grep -q 'messages-ready 1$' && $tool status ring | grep -q 'messages-dropped 1$'
''')
seed('c20-count-mod','C20','read -N with a count above one while the ring holds more messages',
 'read -N consumes one message too many when the ring already holds more than were asked for',
 [(T,'      cfg.nread++;\n      if ((cfg.max_msgs > 0) && (cfg.nread >= cfg.max_msgs)) {\n        goto done;\n      }\n','      if ((cfg.max_msgs > 1) && (cfg.nread >= cfg.max_msgs)) {\n        goto done;\n      }\n      cfg.nread++;\n      if (cfg.max_msgs == 1) goto done;\n')],None,TOOLSH+r'''
$tool create -s 100 ring || exit 3
printf 'a\nb\nc\nd\n' | $tool write ring || exit 3
[ "$($tool read -N 1 ring 2>/dev/null)" = a ] && [ "$($tool read -N 2 ring 2>/dev/null)" = bc ] && [ "$($tool read ring 2>/dev/null)" = d ]
''')
seed('c24-appdata-slots','C24','create with both application data and a slot limit',
 'the slot limit given is ignored when application data is given too',
 [(T,'                cfg.wfile_buf, cfg.wfile_len, cfg.max_msgs);\n','                cfg.wfile_buf, cfg.wfile_len, (size_t)0);\n')],None,TOOLSH+r'''
printf hello > ad; $tool create -s 100 -N 7 -A ad r1 r2 || exit 3
for r in r1 r2; do $tool status $r | grep -q 'max-messages 7$' || exit 1; $tool status $r | grep -q 'app-data 5$' || exit 1; done
''')
seed('c24-suffix','C24','a size with the suffix g or t',
 'sizes in gigabytes and terabytes are computed in 32 bits',
 [(T,"              case 'g': case 'G': cfg.size *= 1024; /* fall through */\n","              case 'g': case 'G': cfg.size = (unsigned)(cfg.size * 1024); /* fall through */\n")],None,TOOLSH+r'''
cat > p.c <<'X'
#include <stdio.h>
#include <stdarg.h>
int shr_init(char*f,size_t n,unsigned fl,...){ printf("%s %zu\n",f,n); return 0; }
X
gcc -w -shared -fPIC -o p.so p.c || exit 3
[ "$(LD_PRELOAD=$t/p.so $tool create -s 2t r)" = "r 2199023255552" ] && [ "$(LD_PRELOAD=$t/p.so $tool create -s 5000t r)" = "r 5497558138880000" ] && [ "$(LD_PRELOAD=$t/p.so $tool create -s 3G r)" = "r 3221225472" ]
''')
