#!/bin/bash
# Warms the build cache: compiles the orchestrator and, once, the instrumented worker.
set -e
cd "$(dirname "$0")/sim"
export GOTOOLCHAIN=local GOFLAGS='-mod=mod -buildvcs=false' GOPROXY=off GOWORK=off
go build -o /dev/null ./cmd/simcheck
go vet ./simrt ./simsync ./world ./orch ./build ./instr
