#!/bin/bash
# Runs the repository's own tests of the binding (tests/bindings) over the stand-ins: shows that these stand for the real crates.
here=$(cd "$(dirname "$0")" && pwd)
cd "$here/../.." || exit 2
python3 -B -c 'from vlib import core; core.node_driver()' || exit 2
t=$(mktemp -d)
trap 'find "$t" -delete' EXIT
mkdir -p "$t/tests" "$t/native" "$t/tmp"
cp -r /repo/tests/bindings "$t/tests/"
cp /repo/index.js "$t/"
cp .build/node-addon/native/index.node "$t/native/"
rc=0
for f in "$t"/tests/bindings/*.js; do
    SHIM_TMP="$t/tmp" NODE_PATH="$here/shims" timeout 120 node "$f" || rc=1
done
exit $rc
