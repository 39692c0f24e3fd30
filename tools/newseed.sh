#!/bin/bash
# newseed.sh ID: (re)installs the kit into seeded/ID, makes patch.diff from the scratch tree given as $2, verifies the demo both ways.
set -e
V=$(cd "$(dirname "$0")/.." && pwd); D=$V/seeded/$1; S=$2
rm -rf "$D/kit"; mkdir -p "$D/kit"; cp -r $V/tools/seedkit/shim $V/tools/seedkit/build.py $V/tools/seedkit/drv.h "$D/kit/"; cp $V/tools/seedkit/demo.sh "$D/demo.sh"; chmod +x "$D/demo.sh"
if [ -n "$S" ]; then git -C "$S" diff > "$D/patch.diff"; fi
T=$(mktemp -d /tmp/seedchk.XXXXXX); trap 'rm -rf "$T"' EXIT
cp -a /repo "$T/r"; cp -r "$D" "$T/d"; rm -f "$T/d/"*.diff "$T/d/meta.json"
(cd "$T/r" && git checkout -q -- . ; timeout 300 bash "$T/d/demo.sh" >"$T/o1" 2>&1) && echo "clean: 0" || { echo "clean: FAIL"; tail -5 "$T/o1"; exit 1; }
git -C "$T/r" apply "$D/patch.diff"
(cd "$T/r" && timeout 300 bash "$T/d/demo.sh" >"$T/o2" 2>&1) && { echo "patched: 0 (NOT DETECTED)"; exit 1; } || { echo "patched: nonzero"; tail -2 "$T/o2"; }
