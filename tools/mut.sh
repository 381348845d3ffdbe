#!/bin/bash
# mut.sh <property,property..> <file below src/frn> <sed expression>: runs checks on a scratch copy with one edit
d=$(mktemp -d /tmp/mut.XXXXXX)
cp -a /repo/src "$d/src"
sed -i -E "$3" "$d/src/frn/$2"
if diff -rq /repo/src "$d/src" >/dev/null; then echo "NO CHANGE: $3"; fi
for p in ${1//,/ }; do
  VERIF_REPO=$d python3 /verif/check.py $p 2>&1 | grep -E "^VIOLATION|^OK property|NO ANSWER|Error|: entry " | sed -E "s/^.*: entry /  entry /" | cut -c1-160
done
case "$d" in /tmp/mut.*) rm -rf "$d";; esac
