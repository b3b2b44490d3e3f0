#!/bin/bash
# Nothing has to be prepared: every check builds the simulator itself from /repo's working tree.
# This only fails early when the toolchain or a dependency is missing.
set -e
cd "$(dirname "$0")"
export HOME=/root GOPATH=/root/go GOCACHE=${GOCACHE:-/root/.cache/go-build} GOMODCACHE=/root/go/pkg/mod
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off GO111MODULE=on GOFLAGS=-mod=readonly CGO_ENABLED=0
go version
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
(cd sim/instr && go build -o "$T/instr" .)
mkdir -p evidence
