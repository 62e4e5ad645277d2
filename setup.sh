#!/bin/bash
# Builds the conformance driver once; every check rebuilds it from /repo's tree anyway.
cd "$(dirname "$0")" || exit 2
mkdir -p build evidence replay
exec python3 -c "from vf import core; print(core.build(True)); print(core.build(False))"
