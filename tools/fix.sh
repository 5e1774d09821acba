#!/bin/bash
# fix.sh "commit message" PROP "what failed" [PROP "what"]...: commit the working tree of /repo as a repair and record it
set -e
cd /repo && gofmt -l . && go build ./... && /verif/tools/base.sh
git add -A && git commit -qm "fix: $1"; shift
h=$(git rev-parse --short HEAD)
while [ $# -gt 1 ]; do echo "fixed: property=$1 $h $2" >> /verif/known_findings.txt; shift 2; done
git log --oneline | head -1
