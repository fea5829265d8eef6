#!/bin/bash
# bash check.sh <ID> [quick|thorough] [--replay FILE]
# Rebuilds the check of property <ID> against /repo's working tree and runs it; then a second time,
# with smaller bounds, on a build without debug assertions and overflow checks.
# Exit 0: held on everything explored; 1: VIOLATION; anything else: the check itself failed.
here=$(cd "$(dirname "$0")" && pwd)
id=${1:?usage: check.sh ID [quick|thorough] [--replay FILE]}
shift
case "$1" in
  quick | thorough) export VERIF_TIER=$1; shift ;;
esac
. "$here/env.sh"
bin=$(echo "$id" | tr 'A-Z' 'a-z')
log=$(mktemp)
trap 'rm -f "$log" "$log.plain"' EXIT
failed() {
  cat "$1" >&2
  echo "check.sh: building $bin against /repo failed" >&2
  exit 2
}
if [ "$1" = --replay ]; then
  if grep -q '"tier": "release"' "$2"; then
    build_plain --bin "$bin" > "$log" 2>&1 || failed "$log"
    "$CARGO_TARGET_DIR/plain/release/$bin" "$@"
  else
    build --bin "$bin" > "$log" 2>&1 || failed "$log"
    "$CARGO_TARGET_DIR/release/$bin" "$@"
  fi
  exit $?
fi
build_plain --bin "$bin" > "$log.plain" 2>&1 &
plain=$!
build --bin "$bin" > "$log" 2>&1
built=$?
wait $plain
plain=$?
[ $built = 0 ] || failed "$log"
[ $plain = 0 ] || failed "$log.plain"
"$CARGO_TARGET_DIR/release/$bin" "$@" || exit $?
[ "$id" = C21 ] && exit 0 # builds of its own
"$CARGO_TARGET_DIR/plain/release/$bin" --tier release "$@"
