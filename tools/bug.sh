#!/bin/bash
# bug.sh <id>...: runs the check of each planted bug's property on a scratch copy with the bug applied
for id in "$@"; do
  d=$(mktemp -d /tmp/bug.XXXXXX); cp -a /repo/src "$d/src"
  (cd "$d" && git apply --include='src/*' /verif/seeded/$id/patch.diff) || echo "$id does not apply"
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  s=$(date +%s); VERIF_REPO=$d timeout 900 python3 /verif/check.py $p > "$d/log" 2>&1; c=$?
  echo "$id $p check=$c $(( $(date +%s)-s ))s $(grep -m1 -A3 VIOLATION "$d/log" | cut -c1-300)"
  case "$d" in /tmp/bug.*) rm -rf "$d";; esac
done
