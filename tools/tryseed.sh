#!/bin/bash
# tryseed.sh ID... : confirm each planted bug (demo passes without, fails with; stable tests pass with it) and run checks against it.
# CHECKS="C01 C02" overrides the property of meta.json; NOTEST=1 skips the test suite; NOCHECK=1 the checks; JOBS=n how many at once.
# Works on copies of /repo and /verif, mounted over the originals in a mount namespace of its own: the real ones are untouched.
here=$(cd "$(dirname "$0")" && pwd); export OUTDIR=${OUTDIR:-/tmp/seedres}; mkdir -p $OUTDIR
if [ "$1" != --one ]; then printf '%s\n' "$@" | xargs -P ${JOBS:-2} -I{} bash $here/tryseed.sh --one {}; exit; fi
id=$2; w=$(mktemp -d /tmp/try-XXXXXX); mkdir $w/verif; cp -a /repo $w/repo; tar -C /verif --exclude=./build --exclude=./.git --exclude=./replays -cf - . | tar -C $w/verif -xf -
cat > $w/run.sh <<'R'
unset JOBS; id=$1; out=$OUTDIR; d=/verif/seeded/$id; r="$id:"
git config --global --add safe.directory /repo 2>/dev/null
git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1
(cd /repo && timeout 300 bash $d/demo.sh >$out/$id.good 2>&1) && r="$r demo-good=ok" || r="$r demo-good=FAIL"
git -C /repo apply --whitespace=nowarn $d/patch.diff || { echo "$r patch does not apply"; exit; }
bash /opt/vp/build.sh >$out/$id.build 2>&1 || r="$r BUILD-FAILS"
(cd /repo && timeout 300 bash $d/demo.sh >$out/$id.bad 2>&1); rc=$?; [ $rc -ne 0 ] && r="$r demo-bad=$rc" || r="$r demo-bad=PASSES"
if [ -z "$NOTEST" ]; then bash /opt/vp/test.sh $out/$id.tests >/dev/null 2>&1; n=$(python3 - $out/$id.tests <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(sys.argv[1]))
s=set(b.get('passed') or b.get('stable') or b.get('tests') or [])
p=set(r.get('passed') or []); print('ok' if s<=p else 'FAIL:'+','.join(sorted(s-p)[:5]), len(s))
P
); r="$r tests=$n"; fi
if [ -z "$NOCHECK" ]; then for c in ${CHECKS:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}; do s=$SECONDS; (cd /verif && timeout 900 python3 check.py $c quick >$out/$id.$c 2>&1); rc=$?; grep -q "^VIOLATION property=$c " $out/$id.$c && v=caught || v=MISSED; r="$r $c=$v($rc,$((SECONDS-s))s)"; done; fi
echo "$r"
R
unshare -Urm bash -c "mount --bind $w/repo /repo && mount --bind $w/verif /verif && HOME=$w bash $w/run.sh $id"
rm -rf "$w"
