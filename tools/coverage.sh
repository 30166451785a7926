#!/bin/bash
# Which statements of the library do the quick checks reach? Prints the functions that are not fully covered.
# usage: coverage.sh [CASES per shard] ; works without touching the evidence
cd "$(dirname "$0")/.."
d=$(mktemp -d /tmp/cov.XXXXXX)
for id in $(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])"); do
  VERIF_KEEP_EVIDENCE=1 VERIF_COVER=$d python3 check.py "$id" quick --cases "${1:-150}" | tail -1
done
python3 - "$d" <<'P'
import sys,glob,collections
n=collections.Counter(); st={}
for f in glob.glob(sys.argv[1]+"/*.cov"):
    for l in open(f):
        if l.startswith("mode:") or "/zzverif/" in l: continue
        loc,k,c=l.split(); st[loc]=int(k); n[loc]+=int(c)
with open(sys.argv[1]+"/all.cov","w") as o:
    o.write("mode: set\n")
    for loc in st: o.write("%s %d %d\n"%(loc,st[loc],min(n[loc],1)))
P
cp "$d/all.cov" /tmp/all.cov
cd /repo && go tool cover -func=/tmp/all.cov | awk '$NF!="100.0%"'
rm -rf "$d"
