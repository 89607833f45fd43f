#!/bin/sh
# Builds the verifier (the checks rebuild it themselves when needed).
cd "$(dirname "$0")" || exit 1
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOCACHE="${GOCACHE:-/root/.cache/go-build}" GOWORK=off
mkdir -p bin evidence
cd gocv && exec go build -o ../bin/gocv .
