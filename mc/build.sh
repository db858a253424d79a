#!/bin/bash
# build.sh OUTDIR : compile the simulator and /repo's library sources into OUTDIR/mc
set -e
here=$(cd "$(dirname "$0")" && pwd); out=$1; repo=${REPO:-/repo}
mkdir -p $out
CX="g++ -std=c++17 -O2 -g -Wall -Wno-misleading-indentation -Wno-format-truncation -I$repo/src -I$repo/lib -I$here"
SC="gcc -g -O1 -fsanitize=thread -fno-builtin -ftrivial-auto-var-init=pattern -fno-stack-protector -U_FORTIFY_SOURCE -fno-pie -D_GNU_SOURCE -w -I$repo/src -I$repo/lib"
pids=()
for f in sim hash spec actor explore scen scen2 scen3 main ${EXTRA:-}; do $CX -fno-pie -c $here/$f.cc -o $out/$f.o & pids+=($!); done
objs=()
for f in $repo/src/*.c $repo/lib/*.c; do b=$(basename $f .c); [ $b = bw-tool ] && continue; $SC -c $f -o $out/sut_$b.o & pids+=($!); objs+=($out/sut_$b.o); done
for f in tool tool_scen; do $CX -fno-pie -c $here/$f.cc -o $out/$f.o & pids+=($!); done
gcc -g -O1 -fno-builtin -ftrivial-auto-var-init=pattern -fno-stack-protector -U_FORTIFY_SOURCE -fno-pie -D_GNU_SOURCE -Dmain=tool_main -w -I$repo/src -I$repo/lib -c $repo/util/shr-tool.c -o $out/sut_tool.o & pids+=($!)
for p in ${pids[@]}; do wait $p; done
$here/simsyms.sh $out/sut.o $out/sim.o ${objs[@]}
xo=(); for f in ${EXTRA:-}; do xo+=($out/$f.o); done
g++ -no-pie -o $out/mc $out/{sim,hash,spec,actor,explore,scen,scen2,scen3,main}.o ${xo[@]} $out/sut.o
PREFER=$out/tool.o KEEPDATA=1 $here/simsyms.sh $out/toolsut.o $out/sim.o $out/sut_tool.o
g++ -no-pie -o $out/mctool $out/{sim,hash,tool,tool_scen}.o $out/sut.o $out/toolsut.o
# the normally built library in real processes, for conformance of the simulated kernel
mkdir -p $out/real
pids=()
RC="g++ -std=c++17 -O1 -w -DREAL -fno-pie -I$repo/src -I$repo/lib -I$here"
$RC -c $here/../real/real.cc -o $out/real/real.o & pids+=($!)
$RC -c $here/actor.cc -o $out/real/actor.o & pids+=($!)
$RC -c $here/scen.cc -o $out/real/scen.o & pids+=($!)
$RC -c $here/hash.cc -o $out/real/hash.o & pids+=($!)
$RC -c $here/scen2.cc -o $out/real/scen2.o & pids+=($!)
$RC -c $here/scen3.cc -o $out/real/scen3.o & pids+=($!)
$RC -c $here/../real/fake.cc -o $out/real/fake.o & pids+=($!)
ro=()
for f in $repo/src/*.c $repo/lib/*.c; do b=$(basename $f .c); [ $b = bw-tool ] && continue; gcc -g -O1 -w -D_GNU_SOURCE -I$repo/src -I$repo/lib -c $f -o $out/real/lib_$b.o & pids+=($!); ro+=($out/real/lib_$b.o); done
for p in ${pids[@]}; do wait $p; done
g++ -no-pie -o $out/realrun $out/real/{real,actor,scen,scen2,scen3,hash,fake}.o ${ro[@]} -lpthread
