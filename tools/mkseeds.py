#!/usr/bin/env python3
"""mkseeds.py [ID...] : regenerate /verif/seeded/<id>/ from the definitions in seeds.d/*.py (used while planting bugs; no check reads it)."""
import os, sys, subprocess, shutil, json, glob
HERE=os.path.dirname(os.path.abspath(__file__)); OUT=os.path.join(HERE,'..','seeded')
SEEDS={}
def seed(id,prop,needs,breaks,edits,demo=None,sh=None): SEEDS[id]=dict(prop=prop,needs=needs,breaks=breaks,edits=edits,demo=demo,sh=sh)
PRE=open(os.path.join(HERE,'demo_pre.h')).read()
SH='''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d) || exit 3; trap 'rm -rf "$t"' EXIT
gcc -g -w -rdynamic -o "$t/demo" "$here/demo.c" -I/repo/src -I/repo/lib -L/repo/_build/src -lshr -Wl,-rpath,/repo/_build/src -ldl -lpthread || exit 3
cd "$t" && timeout -k 5 100 ./demo
'''
for f in sorted(glob.glob(HERE+'/seeds.d/*.py')): exec(open(f).read())
for id in (sys.argv[1:] or SEEDS):
    s=SEEDS[id]; d=f'{OUT}/{id}'; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    w='/tmp/mkseed'; shutil.rmtree(w,ignore_errors=True); os.makedirs(w)
    files=sorted({e[0] for e in s['edits']}); diff=''
    for f in files:
        for v in 'ab': os.makedirs(f'{w}/{v}/{os.path.dirname(f)}',exist_ok=True)
        t=open('/repo/'+f).read(); open(f'{w}/a/{f}','w').write(t)
        for e in s['edits']:
            if e[0]!=f: continue
            if t.count(e[1])!=1: sys.exit(f'{id}: {t.count(e[1])} matches in {f}: {e[1]!r}')
            t=t.replace(e[1],e[2])
        open(f'{w}/b/{f}','w').write(t)
        diff+=subprocess.run(['diff','-u','--label',f'a/{f}','--label',f'b/{f}',f'a/{f}',f'b/{f}'],cwd=w,stdout=subprocess.PIPE,text=True).stdout
    open(f'{d}/patch.diff','w').write(diff)
    json.dump({'property':s['prop'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(f'{d}/meta.json','w'),indent=1)
    if s['demo'] is not None: open(f'{d}/demo.c','w').write(PRE+s['demo']); open(f'{d}/demo.sh','w').write(SH)
    else: open(f'{d}/demo.sh','w').write(s['sh'])
    os.chmod(f'{d}/demo.sh',0o755); shutil.rmtree(w)
