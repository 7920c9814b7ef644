#!/bin/bash
# run.sh PROPERTY [quick|thorough]: decides a property. run.sh replay FILE, run.sh run PROPERTY SEED [trace], ...
set -e
cd "$(dirname "$0")/sim"
export GOTOOLCHAIN=local GOFLAGS='-mod=mod -buildvcs=false' GOPROXY=off GOWORK=off
export SIM_VERIF="$(cd .. && pwd)"
bin=$(mktemp -d)
trap 'rm -rf "$bin"' EXIT
go build -o "$bin/simcheck" ./cmd/simcheck
set +e
case "$1" in
C*) "$bin/simcheck" check "$1" "${2:-${VERIF_TIER:-quick}}" ;;
*) "$bin/simcheck" "$@" ;;
esac
