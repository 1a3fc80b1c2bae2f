#!/bin/bash
# usage: trybugs.sh ID...: run the check of each planted bug's property against a patched copy of /repo
for id in "$@"; do
  d=/tmp/try_$id; rm -rf "$d"; cp -a /repo "$d"; (cd "$d" && git apply /verif/seeded/$id/patch.diff)
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  s=$(date +%s); out=$(cd /verif && VP_REPO=$d VP_EVIDENCE=/tmp/ev_$id ./check.sh $p quick 2>&1); rc=$?
  echo "$id $p rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -m1 '^VIOLATION' | cut -c1-150)"
  rm -rf "$d"
done
