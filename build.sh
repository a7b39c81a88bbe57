#!/bin/bash
# Builds the engine (offline, from the sources in /verif/engine).
set -e
export HOME=/root GOFLAGS=-mod=mod GONOSUMDB='*' GONOSUMCHECK=1 GOSUMDB=off GOPROXY=off GOTOOLCHAIN=local
cd "$(dirname "$0")/engine"
mkdir -p ../bin
go build -o ../bin/symgo .
