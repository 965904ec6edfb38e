#!/bin/bash
# nothing to install: checks that the tools the verifier needs are there and warms the object cache
set -e
cd "$(dirname "$0")/.."
command -v clang-18 >/dev/null || command -v clang >/dev/null
command -v cvc5 >/dev/null
python3-vt -c 'import z3; from cdv import native as N
for l in ("mmg3d", "mmg2d", "mmgs"): N.build(l)'
python3-vt -m cdv.selftest
