#!/bin/bash
# tools/trial.sh [NAME...]: runs each planted bug's own check (quick) on a scratch copy with the bug applied.
here=$(cd "$(dirname "$0")/.." && pwd); . "$here/lib.sh"; engine
names=("$@"); [ ${#names[@]} = 0 ] && names=($(ls "$here/seeded"))
for n in "${names[@]}"; do
  d=$here/seeded/$n; prop=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "$d/meta.json")
  w=/tmp/trial/$n; rm -rf "/tmp/trial/$n"; mkdir -p /tmp/trial; cp -a /repo "$w"
  (cd "$w" && git apply "$d/patch.diff") || { echo "$n NOAPPLY"; continue; }
  s=$(date +%s); out=$("$VE" -repo "$w" -verif "$here" -prop "$prop" -tier quick 2>&1); rc=$?
  echo "$n $prop rc=$rc $(( $(date +%s)-s ))s $(grep -m1 -o 'VIOLATION.*' <<<"$out")"
  grep -m3 -i "violat\|inconclusive\|error" <<<"$out" | cut -c1-300 | sed 's/^/    /'
  rm -rf "/tmp/trial/$n"
done
