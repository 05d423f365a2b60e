#!/bin/bash
# Runs the defect demonstrations against /repo's working tree (dev aid; no check uses it).
export PATH=/opt/veriftools/go1.23.12/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
echo "{\"Replace\":{\"/repo/pkg/table/defects_test.go\":\"$here/defects_test.go\"}}" > $d/o.json
cd /repo && go test -vet=off -overlay $d/o.json -count=1 -timeout 300s "$@" ./pkg/table/ 
