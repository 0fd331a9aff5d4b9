#!/bin/bash
# Builds the engine from the committed sources and checks one property:
#   ./run.sh C06 [quick|thorough] [extra flags]
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD" GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
mkdir -p bin
( cd engine && go build -o ../bin/gosym.$$ . ) || exit 2
mv -f bin/gosym.$$ bin/gosym
[ $# -eq 0 ] && exit 0
prop=$1; shift
tier=${1:-${VERIF_TIER:-quick}}; [ $# -gt 0 ] && shift
exec bin/gosym check -prop "$prop" -tier "$tier" "$@"
