#!/bin/bash
# runseeded.sh [ID...]: runs the check of its property against every planted bug (ALL=1: all checks)
cd /verif
ids="$*"; [ -z "$ids" ] && ids=$(ls seeded)
for id in $ids; do
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  ps=$p; [ -n "${ALL:-}" ] && ps="C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24"
  hit=""; miss=""; odd=""
  for q in $ps; do
    out=$(VERIF_SEED=${SEED:-1} bash run.sh $q 2>&1); rc=$?
    case $rc in 1) hit="$hit $q";; 0) miss="$miss $q";; *) odd="$odd $q($rc)";; esac
    [ $q = $p ] && msg=$(echo "$out" | grep -v KNOWN | head -1 | cut -c1-150)
  done
  git -C /repo checkout -q -- .
  case " $hit " in *" $p "*) v=CAUGHT;; *) v=MISSED;; esac
  echo "$id $v hits:$hit${odd:+ ODD:$odd} | $msg"
done
