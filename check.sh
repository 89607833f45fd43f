#!/bin/sh
# check.sh ID [quick|thorough]: builds the verifier from /verif/gocv and decides one property.
cd "$(dirname "$0")" || exit 1
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOCACHE="${GOCACHE:-/root/.cache/go-build}" GOWORK=off
mkdir -p bin evidence
if ! (cd gocv && go build -o ../bin/gocv .) >bin/build.log 2>&1; then
  cat bin/build.log
  echo "the verifier does not build"
  exit 1
fi
unset GOWORK
exec ./bin/gocv check "$1" --tier "${2:-${VERIF_TIER:-quick}}"
