#!/bin/bash
# mkseed.sh NAME PROPERTY "needs" "breaks" <demo_test.go on stdin : takes the diff of /repo's working tree as patch and undoes it
set -e
d=/verif/seeded/$1; mkdir -p "$d"
git -C /repo diff >"$d/patch.diff"; [ -s "$d/patch.diff" ] || { echo "no diff"; exit 1; }
git -C /repo checkout -q -- .
cp /verif/tools/seed_common/demo.sh "$d/demo.sh"
cp /verif/tools/seed_common/zz_fed_test.go "$d/"
cat >"$d/zz_demo_test.go"
gofmt -l "$d"
python3 - "$d/meta.json" "$2" "$3" "$4" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1],"w"),indent=1)
P
