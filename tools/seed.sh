#!/bin/bash
# tools/seed.sh ID...: confirm planted bugs in scratch copies (build, baseline tests, demo both ways) and show which checks report them
cd "$(dirname "$0")/.."; V=$PWD
one() {
  id=$1; D=/tmp/sd_$id; rm -rf "/tmp/sd_$id"; mkdir -p $D; cp -a /repo $D/repo; cp -a $V/seeded/$id $D/seed
  cd $D/repo
  export PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg OMP_NUM_THREADS=4 MKL_NUM_THREADS=4 PYTHONPATH=$D/repo
  timeout 200 bash $D/seed/demo.sh >$D/d0.log 2>&1; r0=$?
  git apply $V/seeded/$id/patch.diff || { echo "$id: patch does not apply"; return; }
  timeout 200 bash $D/seed/demo.sh >$D/d1.log 2>&1; r1=$?
  t=-
  if [ -z "$NOTEST" ]; then
    /opt/venv/bin/python -m pytest test -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors -o junit_family=xunit2 --junitxml=$D/j.xml >$D/t.log 2>&1
    /usr/bin/python3 /opt/vp/results.py $D/out.json junit:$D/j.xml >/dev/null 2>&1
    t=$(/usr/bin/python3 - $D/out.json <<'PY'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
def g(d,k):
    v=d.get(k,[])
    return set(v if isinstance(v,list) else v.keys())
need=None
for k in ('stable','passed','pass','tests'):
    if k in b: need=set(b[k]); break
if need is None: need=set(b) if isinstance(b,list) else set()
for k in ('passed','pass'):
    if k in o: got=set(o[k]); break
print('tests-ok' if need and need<=got else 'TESTS-FAIL '+str(sorted(need-got))[:300])
PY
)
  fi
  cd $V; c=""
  for p in ${CHECKS:-$(/usr/bin/python3 -c "import json;print(' '.join(x['property'] for x in json.load(open('MANIFEST.json'))['checks']))")}; do
    o=$(python3 check.py $p --root $D/repo --noev 2>&1); r=$?
    [ $r = 1 ] && c="$c $p"; [ $r -gt 1 ] && c="$c $p(rc$r)"
  done
  echo "$id: demo $r0/$r1 $t caught-by:$c  (property $(/usr/bin/python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])"))"
  [ -z "$KEEP" ] && rm -rf "/tmp/sd_$id"
}
for i in "$@"; do while [ $(jobs -r | wc -l) -ge ${J:-4} ]; do sleep 0.3; done; one $i & done; wait
