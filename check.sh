#!/bin/bash
# usage: check.sh <property id> [quick|thorough]     run the check of one property
#        check.sh replay <file>                      execute a replay file against /repo's working tree
#        check.sh selftest [n]                       determinism self-test of all properties
# Builds the simulator from /repo's current working tree (nothing of /repo is modified) and runs it.
set -u
V=$(cd "$(dirname "$0")" && pwd)
R=${REPO:-/repo}
SEED=${VERIF_SEED:-1}
export HOME=/root GOPATH=/root/go GOCACHE=${GOCACHE:-/root/.cache/go-build} GOMODCACHE=/root/go/pkg/mod
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GO111MODULE=on GOFLAGS=-mod=readonly CGO_ENABLED=0
id=${1:?property id}
tier=${2:-${VERIF_TIER:-quick}}
race=
case $id in
C04|C05) race=-race ;;
replay) grep -q '"property": "C0[45]"' "$2" && race=-race ;;
esac
[ "$id" = selftest ] && [ -n "${RACE:-}" ] && race=-race
[ -n "$race" ] && export CGO_ENABLED=1
T=$(mktemp -d "${TMPDIR:-/tmp}/zzverif.XXXXXX") || exit 3
trap 'rm -rf "$T"' EXIT
(cd "$V/sim/instr" && go build -o "$T/instr" .) || { echo "check.sh: building the instrumenter failed" >&2; exit 3; }
mkdir "$T/b"
"$T/instr" -repo "$R" -out "$T/b" -rt "$V/sim/rt" -harness "$V/sim/harness" -gomod "$V/sim/gomod/go.mod" -gosum "$V/sim/gomod/go.sum" || { echo "check.sh: instrumenting failed" >&2; exit 3; }
(cd "$R" && go build $race -overlay "$T/b/overlay.json" -o "$T/sim" ./zzsim) || { echo "check.sh: building the simulator failed" >&2; exit 3; }
mkdir -p "$V/evidence"
case $id in
replay) "$T/sim" replay -known "$V/known_findings.txt" "$2" ;;
selftest) "$T/sim" selftest -n "${2:-100}" -seed "$SEED" ;;
*) "$T/sim" run -prop "$id" -tier "$tier" -seed "$SEED" -verif "$V" -sites "$T/b/sites.json" ${SIMARGS:-} ;;
esac
exit $?
