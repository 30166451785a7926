#!/bin/bash
# seed.sh NAME: checks /verif/seeded/NAME (patch applies, builds, stable tests pass, demo 0/nonzero)
# in a scratch copy bind-free: it works on /repo itself and restores it, then runs the property's check.
# usage: bash seed.sh NAME [nocheck]
set -u
n=$1
d=/verif/seeded/$n
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
restore() { git -C /repo checkout -q -- .; }
trap restore EXIT
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo
lay=$(mktemp -d /tmp/lay.XXXXXX)
cp -a "$d"/. "$lay"/; rm -f "$lay"/*.diff "$lay"/*.patch "$lay"/meta.json
( cd /repo && bash "$lay/demo.sh" ) >"$lay/o1" 2>&1; r1=$?
[ $r1 -eq 0 ] || { echo "$n: DEMO FAILS UNPATCHED ($r1)"; tail -20 "$lay/o1"; rm -rf "$lay"; exit 1; }
git apply "$d/patch.diff" || { echo "$n: patch does not apply"; rm -rf "$lay"; exit 1; }
bash /opt/vp/build.sh || { echo "$n: DOES NOT BUILD"; rm -rf "$lay"; exit 1; }
t=$(bash /verif/tools/testrepo.sh)
case "$t" in *"missing: 0 []"*) ;; *) echo "$n: TESTS: $t"; rm -rf "$lay"; exit 1;; esac
( cd /repo && bash "$lay/demo.sh" ) >"$lay/o2" 2>&1; r2=$?
[ $r2 -ne 0 ] || { echo "$n: DEMO PASSES PATCHED"; rm -rf "$lay"; exit 1; }
grep -m1 -E 'zz_demo|demo_test|panic|DATA RACE' "$lay/o2" | head -1
rm -rf "$lay"
[ "${2:-}" = nocheck ] && { echo "$n: ok (unchecked)"; exit 0; }
s=$(date +%s)
out=$(cd /verif && VERIF_SEED=${VERIF_SEED:-1} timeout 880 python3 check.py "$prop" quick 2>&1); rc=$?
e=$(( $(date +%s) - s ))
if [ $rc -eq 1 ] && grep -q "VIOLATION property=$prop" <<<"$out"; then echo "$n: CAUGHT by $prop in ${e}s: $(grep -m1 VIOLATION <<<"$out" | cut -c1-200)"; grep -m1 -A3 -i 'sig=' <<<"$out" | cut -c1-300 | head -3
else echo "$n: MISSED by $prop rc=$rc in ${e}s"; tail -3 <<<"$out"; fi
