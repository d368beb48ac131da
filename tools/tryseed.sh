#!/bin/bash
# bash tools/tryseed.sh <seed id> [notest]: confirm a planted bug and run its property's check on it (applies it to /repo, undoes it)
S=/verif/seeded/$1; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo dirty repo; exit 1; }
bash /opt/vp/build.sh >/tmp/ts.log 2>&1
timeout 300 bash $S/demo.sh >/tmp/ts.demo0 2>&1; d0=$?
git apply $S/patch.diff || { echo "patch does not apply"; exit 1; }
bash /opt/vp/build.sh >/tmp/ts.log 2>&1 || echo BUILD FAILS
timeout 300 bash $S/demo.sh >/tmp/ts.demo1 2>&1; d1=$?
t=skipped
if [ "$2" != notest ]; then
 bash /opt/vp/test.sh /tmp/ts.json >/tmp/ts.log 2>&1
 t=$(python3 -c "
import json
t=json.load(open('/tmp/ts.json')); b=json.load(open('/opt/vp/BASELINE.json'))
print('missing:', sorted(set(b['stable'])-set(t['passed'])))")
fi
if [ "$2" != nocheck ]; then bash /verif/check.sh $P >/tmp/ts.chk 2>&1; c=$?; fi
git checkout -q -- . ; bash /opt/vp/build.sh >/tmp/ts.log 2>&1
echo "$1 ($P): demo clean=$d0 patched=$d1 tests $t check exit=$c"; grep -E "VIOLATION|failed obl" /tmp/ts.chk | head -4
python3 - "$1" "$c" "$d0$d1" <<'PY'
import json,sys
f='/verif/tools/seedresults.json'
try: r=json.load(open(f))
except Exception: r={}
if sys.argv[2] != '':
    nf = 'no-failing-input-found' in open('/tmp/ts.chk').read()
    r[sys.argv[1]] = 'yes' + (' (unproved obligation, no input)' if nf and False else '') if sys.argv[2]=='1' else 'NO'
json.dump(r,open(f,'w'),indent=1,sort_keys=True)
PY
