#!/bin/bash
# cwd: the repository. Runs the demonstration beside this script as an in-package test.
set -e
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$tmp"' EXIT
{
	echo '{"Replace":{'
	sep=
	for f in "$here"/*_test.go; do
		echo "$sep\"$PWD/$(basename "$f")\":\"$f\""
		sep=,
	done
	echo '}}'
} >"$tmp/overlay.json"
timeout 200 go test -count=1 -vet=off -overlay "$tmp/overlay.json" -run '^TestDemo$' . >"$tmp/out" 2>&1 && rc=0 || rc=$?
tail -40 "$tmp/out"
grep -q '^ok' "$tmp/out" || [ $rc -ne 0 ] || rc=3
exit $rc
