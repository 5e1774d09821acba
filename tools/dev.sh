#!/bin/bash
# dev.sh ID [tier]: build and run one check quickly, evidence into /tmp/ev
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
cd /verif/mc && go test -c -vet=off -o /tmp/mcbin ./checks || exit 2
for id in ${1//,/ }; do MC_LEVEL=${L:-exploration} MC_PROP=$id MC_TIER=${2:-quick} MC_OUT=/tmp/ev /tmp/mcbin -test.run TestMC -test.timeout 0 | cut -c1-700; done
