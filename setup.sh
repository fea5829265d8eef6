#!/bin/bash
# Builds all checks once (each check rebuilds what depends on /repo).
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
build --bins || exit 1
build_plain --bins || exit 1
# C21: the dependencies of the feature combinations, once per parallel build
for k in 0 1 2 3; do
  (cd "$here/features" && CARGO_TARGET_DIR=$CARGO_TARGET_DIR/features-$k cargo build --offline --locked --features default-features) &
done
wait
