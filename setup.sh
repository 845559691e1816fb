#!/bin/bash
# Each check compiles what it needs from /repo's current tree, so there is
# nothing to keep; this only verifies that the harness itself compiles.
set -e
cd "$(dirname "$0")"
d=$(mktemp -d /tmp/verif-setup-XXXXXX)
trap 'rm -rf "$d"' EXIT
for f in harness/*.cpp; do
	clang++ -std=c++17 -O0 -w -I"${VERIF_REPO:-/repo}" -Iharness -c "$f" -o "$d/$(basename "$f").o" &
done
wait
ls "$d" | wc -l
