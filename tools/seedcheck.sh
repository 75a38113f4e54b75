#!/bin/bash
# seedcheck.sh ID...: confirms planted bugs in a scratch copy of /repo and runs the property's check on each.
cd "$(dirname "$0")/.."
V=$PWD
for id in "$@"; do
  t=$(mktemp -d /tmp/seedXXXXXX)
  cp -a /repo "$t/repo"
  out=""
  ( cd $t/repo
    bash $V/seeded/$id/demo.sh > $t/d0 2>&1 || { echo "$id DEMO FAILS CLEAN"; tail -5 $t/d0; }
    git apply $V/seeded/$id/patch.diff || { echo "$id PATCH"; exit; }
    export GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off GOFLAGS="-mod=mod -modfile=$t/go.mod"
    cp go.mod go.sum $t/
    go build ./... || echo "$id BUILD"
    go test -json -vet=off -count=1 ./... > $t/t.json 2>&1
    python3 - $t/t.json $id <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))
s=json.dumps(b)
fails=set()
for l in open(sys.argv[1]):
    try: d=json.loads(l)
    except Exception: continue
    if d.get('Action')=='fail' and d.get('Test'): fails.add(d['Test'])
bad=[f for f in fails if '"'+f+'"' in s or f+'"' in s]
if bad: print(sys.argv[2],'TESTS FAIL',bad)
P
    bash $V/seeded/$id/demo.sh > $t/d1 2>&1 && echo "$id DEMO PASSES PATCHED"
  )
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  s=$(date +%s)
  mkdir $t/verif; cp -a check.sh setup.sh engine harness build known_findings.txt MANIFEST.json properties.jsonl tools $t/verif/  # checks do not share a build folder
  VF_REPO=$t/repo $t/verif/check.sh $p quick > $t/chk 2>&1; rc=$?
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(grep -m1 VIOLATION $t/chk) :: $(grep -m1 -i 'assert\|panic\|unreproduced' $t/chk | cut -c1-150)"
  [ $rc = 1 ] || tail -3 $t/chk
  python3 - $id $rc $p <<'P'
import json,sys,os
f='tools/caught.json'
d=json.load(open(f)) if os.path.exists(f) else {}
d[sys.argv[1]]='by %s'%sys.argv[3] if sys.argv[2]=='1' else 'no'
json.dump(d,open(f,'w'),indent=1,sort_keys=True)
P
  case "$t" in /tmp/seed??????) rm -rf "$t";; esac
done
