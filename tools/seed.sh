#!/bin/bash
# tools/seed.sh ID      confirm the planted bug in seeded/ID on a scratch copy of /repo: the demo passes without the
# patch; with it the code builds, the stable tests pass and the demo fails.  tools/seed.sh ID PROP also runs the check.
set -u
id=$1; prop=${2:-}
V=$(cd "$(dirname "$0")/.." && pwd); S=$V/seeded/$id
W=$(mktemp -d /tmp/seedXXXXXX)
trap 'rm -rf "$W"' EXIT
cp -a /repo/. "$W/repo"
cd "$W/repo" || exit 2
git checkout -q -- . 
cp -a "$S" "$W/demo"; rm -f "$W/demo/patch.diff" "$W/demo/meta.json"
(bash "$W/demo/demo.sh" >"$W/out0" 2>&1); r0=$?
git apply "$S/patch.diff" || { echo "$id: patch does not apply"; exit 1; }
(bash "$W/demo/demo.sh" >"$W/out1" 2>&1); r1=$?
echo "$id: demo unpatched=$r0 patched=$r1"
[ $r0 = 0 ] || tail -5 "$W/out0"
tail -3 "$W/out1"
if [ -n "$prop" ]; then
  for p in ${prop//,/ }; do
    GTMESH_REPO="$W/repo" GTMESH_BUILD="$W/build" python3 $V/run.py $p > "$W/chk" 2>&1; echo "$id: $p exit $?"; grep -A2 -m2 VIOLATION "$W/chk" | cut -c1-300; grep -m2 ERROR "$W/chk"
  done
fi
