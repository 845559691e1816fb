#!/bin/bash
# Run in the root of the source tree.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 1
trap 'rm -rf "$d"' EXIT
gcc -O1 -w -I. -I"$here" -o "$d/demo" "$here/demo.c" dhara/*.c || exit 1
timeout 200 "$d/demo"
