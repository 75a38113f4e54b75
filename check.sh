#!/bin/bash
# check.sh PROPERTY [quick|thorough] [further vfcheck flags]
cd "$(dirname "$0")" || exit 2
./setup.sh || exit 2
p=$1; tier=${2:-${VERIF_TIER:-quick}}
shift; shift
exec ./build/vfcheck check -property "$p" -tier "$tier" -repo "${VF_REPO:-/repo}" -verif "$PWD" "$@"
