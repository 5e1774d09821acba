#!/bin/bash
# check.sh ID quick|thorough: build from /repo's working tree, explore, verdict. See DESIGN.md.
cd "$(dirname "$0")" || exit 2
exec python3 tools/check.py "$@"
