#!/bin/bash
# saves the replay files of a property as regression inputs: save.sh ID
cd "$(dirname "$0")/.."
mkdir -p regress/$1
for f in replays/$1-*.json; do
  python3 - "$f" "$1" <<'P'
import json,sys,hashlib
d=json.load(open(sys.argv[1])); d.pop('msg',None); d.pop('sig',None)
b=json.dumps(d,indent=1,sort_keys=True)
n=f"regress/{sys.argv[2]}/{d['sub']}-{hashlib.sha256(b.encode()).hexdigest()[:8]}.json"
open(n,'w').write(b+"\n"); print(n)
P
done
