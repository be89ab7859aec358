#!/bin/bash
# catch.sh SEED [CHECK...]  (development only): runs checks against /repo with one planted bug applied.
s=$1; shift
p=/verif/seeded/$s
ids="$*"; [ -n "$ids" ] || ids=$(python3 -c "import json;print(json.load(open('$p/meta.json'))['property'])")
git -C /repo apply $p/patch.diff || exit 9
for i in $ids; do
  t=$(date +%s); out=$(VERIF_SEED=1 VERIF_TIER=quick bash /verif/check.sh $i 2>&1); r=$?
  echo "$s $i: exit $r, $(( $(date +%s) - t )) s: $(echo "$out" | grep -m1 VIOLATION)"
done
git -C /repo checkout -- .
bash /verif/build.sh >/dev/null 2>&1
