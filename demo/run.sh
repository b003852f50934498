#!/bin/bash
# Compiles demo.rs (with vm.rs) against the tree that build.sh built, as an extra test of the program crate in a scratch copy
# of that tree, and runs it. Everything it writes is inside the scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/lib/env.sh
scratch=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$scratch"' EXIT
cp -a --reflink=auto /opt/vp/mirror/src "$scratch/src" || exit 2
cp -a --reflink=auto /opt/vp/mirror/target "$scratch/target" || exit 2
t="$scratch/src/programs/dynamic-bonding-curve/tests"
mkdir -p "$t"
cp "$here/demo.rs" "$t/demo.rs"
mkdir -p "$t/vm"
cp "$here/vm.rs" "$t/vm/mod.rs"
export CARGO_TARGET_DIR="$scratch/target"
cd "$scratch/src" && cargo test -p dynamic-bonding-curve --test demo --offline -- --test-threads 1 2>&1 | tail -n 40
exit "${PIPESTATUS[0]}"
