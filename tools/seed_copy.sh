#!/bin/bash
# seed_copy.sh NAME [CHECK]: runs the check of a planted bug against a patched copy of /repo (leaves /repo alone).
here=$(cd "$(dirname "$0")/.." && pwd)
prop=${2:-$(python3 -c "import json,sys;print(json.load(open('$here/seeded/$1/meta.json'))['property'])")}
copy=$(mktemp -d /tmp/seedcopy.XXXXXX)
cp -a /repo/. "$copy"
git -C "$copy" apply "$here/seeded/$1/patch.diff" || { rm -rf "$copy"; exit 3; }
out=$(cd "$here" && VERIF_REPO=$copy timeout 900 python3 check.py "$prop" quick 2>&1); rc=$?
rm -rf "$copy"
if [ $rc -eq 1 ] && grep -q "^VIOLATION property=$prop " <<<"$out"; then echo "CAUGHT $1 $prop"; else echo "MISSED $1 $prop rc=$rc"; tail -5 <<<"$out"; fi
