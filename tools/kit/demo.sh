#!/bin/bash
# Builds main.go and kit.go as a program inside /repo's module (by overlay) and runs it.
D=$(cd "$(dirname "$0")" && pwd)
export PATH="$PATH:/usr/local/bin:/opt/veriftools/go1.27.3/bin"
export GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOWORK=off GOFLAGS=-mod=mod
export GOPATH=${GOPATH:-/root/go} GOCACHE=${GOCACHE:-/root/.cache/go-build}
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
R=$(pwd)
printf '{"Replace": {"%s/jwk_endpoint.go": "", "%s/zzdemo/main.go": "%s/main.go", "%s/zzdemo/kit.go": "%s/kit.go"}}\n' "$R" "$R" "$D" "$R" "$D" > "$T/overlay.json"
go build -overlay "$T/overlay.json" -o "$T/demo" ./zzdemo || exit 3
timeout 120 "$T/demo"
