#!/bin/bash
# sdev.sh ID[,ID] [tier]: like dev.sh for the schedule checks
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
cd /verif/mc && mkdir -p /tmp/sd && go build -o /tmp/sd/instr ./instr && rm -rf /tmp/sd/ov && /tmp/sd/instr ${MC_REPO:-/repo} /tmp/sd/ov && go test -c -race -vet=off -overlay /tmp/sd/ov/overlay.json -o /tmp/sd/bin ./schedchecks && go test -c -vet=off -overlay /tmp/sd/ov/overlay.json -o /tmp/sd/bin-norace ./schedchecks || exit 2
export MC_NORACE_BIN=/tmp/sd/bin-norace TMPDIR=/tmp/sd GORACE="halt_on_error=0 exitcode=0 atexit_sleep_ms=0 log_path=/tmp/sd/race"
for id in ${1//,/ }; do MC_LEVEL=model_checking MC_PROP=$id MC_TIER=${2:-quick} MC_OUT=/tmp/ev /tmp/sd/bin -test.run TestMC -test.timeout 0 | cut -c1-${W:-3000}; done
rm -f /tmp/sd/race.*
