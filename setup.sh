#!/bin/bash
# builds the engine from its sources with what is installed; no network
set -e
here=$(cd "$(dirname "$0")" && pwd)
cd "$here/engine"
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
mkdir -p "$here/build"
go build -o "$here/build/engine" .
