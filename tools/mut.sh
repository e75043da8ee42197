#!/bin/bash
# mut.sh "<ids>" <<< patch-or-script : runs checks against a scratch copy of /repo changed by the shell script given on stdin (cwd: the copy)
set -u
V=$(cd "$(dirname "$0")/.." && pwd)
D=$(mktemp -d /tmp/mut.XXXXXX)
cp -a /repo/. "$D"
( cd "$D" && bash -e ) || { echo "CHANGE FAILED"; rm -rf "$D"; exit 2; }
( cd "$D" && git diff --stat | tail -1 )
for id in $1; do VERIF_REPO=$D python3 "$V/check.py" $id ${2:-} 2>&1 | grep -v "^  " | tail -2 | cut -c1-400; done
rm -rf "$D"
