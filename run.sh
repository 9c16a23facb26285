#!/bin/bash
# usage: run.sh check ID | replay FILE | selftest | setup
# Builds the simulator (offline) into a directory outside /repo and runs it.
set -u
root="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$root"
if [ -x /opt/veriftools/go1.24.13/bin/go ]; then PATH=/opt/veriftools/go1.24.13/bin:$PATH; fi
export PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS= GOTELEMETRY=off
bin="$root/.build/vsim.$$"
mkdir -p "$root/.build" || exit 3
(cd "$root/sim" && go build -o "$bin" ./cmd/vsim) || { echo "ERROR: cannot build the simulator"; exit 3; }
"$bin" "$@"
code=$?
rm -f "$bin"
exit $code
