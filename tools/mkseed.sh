#!/bin/bash
# mkseed.sh ID PROPERTY PKG DEMO_TEST.go PATCH "needs" "what_it_breaks": lays out seeded/ID
set -e
cd "$(dirname "$0")/.."
d=seeded/$1; mkdir -p $d/vf
cp tools/demo/demo.sh $d/demo.sh; chmod +x $d/demo.sh
echo "$3" > $d/pkg
cp "$4" $d/demo_test.go
cp harness/internal/vf/*.go $d/vf/
cp "$5" $d/patch.diff
python3 - "$@" <<'P'
import json,sys
a=sys.argv
json.dump({"property":a[2],"needs":a[6],"what_it_breaks":a[7]},open("seeded/%s/meta.json"%a[1],"w"),indent=1)
P
