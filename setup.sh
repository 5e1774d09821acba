#!/bin/bash
# Nothing has to be kept between runs (every check rebuilds from /repo); this only checks the
# toolchain and warms the build cache.
cd "$(dirname "$0")" || exit 2
exec python3 tools/check.py --warm
