#!/bin/bash
# Builds /repo's sources with demo.cpp in a scratch directory and runs it there.
H=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$W"' EXIT
python3 "$H/kit/build.py" "$PWD" "$W" "$H/demo.cpp" $(cat "$H/flags" 2>/dev/null) || exit 2
mkdir "$W/scratch"
cd "$W/scratch" && timeout 120 "$W/demo" "$W/scratch"
