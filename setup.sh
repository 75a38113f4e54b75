#!/bin/bash
# Builds the engine into build/ (not committed), offline.
set -e
cd "$(dirname "$0")"
export GOFLAGS=-mod=mod GOSUMDB=off GOPROXY=off GOWORK=off GOTOOLCHAIN=local
mkdir -p build evidence
exec 9>build/.lock
flock 9
if [ ! -x build/vfcheck ] || [ -n "$(find engine -name '*.go' -newer build/vfcheck -print -quit)" ]; then
  (cd engine && go build -o ../build/vfcheck.tmp . && mv ../build/vfcheck.tmp ../build/vfcheck)
fi
