#!/bin/bash
# For every logged fix: reverses it in /repo's working tree, runs the check of its property, restores. A check that
# stays quiet is reported as MISSED. (The reversal may not apply any more after later fixes of the same lines.)
cd "$(dirname "$0")/.."
test -z "$(git -C /repo status --porcelain)" || { echo "/repo not clean"; exit 1; }
grep '^fixed:' KNOWN_FINDINGS.txt | while read -r _ prop commit what; do
  id=${prop#property=}
  [ -n "$1" ] && [[ ",$1," != *",$commit,"* ]] && continue
  if ! git -C /repo show "$commit" | git -C /repo apply -R --3way >/dev/null 2>&1 || git -C /repo grep -q '^<<<<<<<' -- '*.go'; then
    echo "NOAPPLY $id $commit"
  elif ! (cd /repo && go build ./... 2>/dev/null); then
    echo "NOBUILD $id $commit"
  else
    out=$(VERIF_KEEP_EVIDENCE=1 timeout 900 python3 check.py "$id" 2>&1 < /dev/null)
    rc=$?
    [ $rc = 1 ] && echo "CAUGHT  $id $commit" || echo "MISSED  $id $commit rc=$rc ($what)"
  fi
  git -C /repo reset -q --hard
  rm -f /verif/replays/$id-*.json
done
