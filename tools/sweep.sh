#!/bin/bash
# For each planted bug: apply it to a scratch copy of /repo, run the check of its property from a scratch copy of
# /verif (ALL=1: every check; Q="C01 C02": these), and undo it.  Neither /repo nor /verif is touched.
W=${W:-/tmp/t/sw}; mkdir -p $W
rsync -a --delete --exclude .git --exclude build --exclude seeded /verif/ $W/verif/ 2>/dev/null || { mkdir -p $W/verif; (cd /verif && tar c --exclude=.git --exclude=build --exclude=seeded .) | tar x -C $W/verif; }
[ -d $W/repo ] && find $W/repo -delete; git clone -q /repo $W/repo; [ -f /repo/Cargo.lock ] && cp /repo/Cargo.lock $W/repo/
sed -i "s#\"/repo\"#\"$W/repo\"#" $W/verif/harness/Cargo.toml
cd $W/verif; export FOURLEAF_REPO=$W/repo
for d in ${@:-/verif/seeded/*}; do d=${d%/}; i=$(basename $d)
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C $W/repo apply $d/patch.diff || { echo "$i APPLY FAILED"; continue; }
  for q in ${Q:-$p}; do
    o=$(VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 bin/check.py $q 2>&1); rc=$?
    echo "$i $q rc=$rc $(echo "$o" | grep VIOLATION | head -2 | tr '\n' ' ') $(echo "$o" | grep 'failed obligation' | cut -c1-110 | head -3 | tr '\n' ' ')"
  done
  git -C $W/repo checkout -q -- .
done
