#!/bin/bash
# Builds the checker from the committed source (offline).
set -e
d=$(cd "$(dirname "$0")" && pwd)
cd "$d/checker"
export GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOTOOLCHAIN=local GONOSUMDB='*' GOSUMDB=off GOWORK=off
go build -o bin/checker .
