#!/bin/bash
# Runs demo_test.go (and the helper package beside it) inside the package named in ./pkg, by overlay.
here=$(cd "$(dirname "$0")" && pwd) || exit 2
repo=$PWD
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
pkg=$(cat "$here/pkg")
{
  echo '{"Replace": {'
  for f in "$here"/vf/*.go; do echo "\"$repo/internal/zzdemovf/$(basename "$f")\": \"$f\","; done
  echo "\"$repo/$pkg/zz_demo_verif_test.go\": \"$here/demo_test.go\""
  echo '}}'
} > "$w/overlay.json"
cp "$repo/go.mod" "$repo/go.sum" "$w/" || exit 2
export GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off GOFLAGS="-mod=mod -modfile=$w/go.mod"
timeout 280 go test -vet=off -count=1 -overlay "$w/overlay.json" -run '^TestZZDemo$' "./$pkg"
