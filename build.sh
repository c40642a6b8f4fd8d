#!/bin/bash
# Builds the analyser from its committed sources (offline).
cd "$(dirname "$0")/analyzer" || exit 2
bin=../bin/bipscheck
if [ -x $bin ] && [ -z "$(find . -newer $bin -type f | head -1)" ]; then exit 0; fi
mkdir -p ../bin
export GOFLAGS=-mod=mod GOPROXY=off GONOSUMDB='*' GONOSUMCHECK=1 GOTOOLCHAIN=local
exec 9>../bin/.lock
flock 9
go build -o $bin.new . && mv $bin.new $bin
