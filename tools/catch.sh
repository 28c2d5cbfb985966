#!/bin/bash
# catch.sh ID... : run the check of each seeded bug's property (quick) against a copy of /repo with the bug
for b in "$@"; do
  P=/verif/seeded/$b; p=$(python3 -c "import json;print(json.load(open('$P/meta.json'))['property'])")
  R=$(mktemp -d /tmp/catch.XXXXXX); cp -a /repo/. $R
  git -C $R apply $P/patch.diff || { echo "$b: does not apply"; continue; }
  (cd /verif; VERIF_REPO=$R VERIF_SEED=${SEED:-1} timeout 900 python3 check.py ${PROP:-$p} > $R.out 2>&1; echo "$b [${PROP:-$p}] exit $? $(grep -o '^VIOLATION.*\|^CHECK ERROR.*\|^OK.*' $R.out | head -c 200) :: $(grep -v '^VIOL\|^KNOWN' $R.out | head -c 300 | tr '\n' ' ')")
  rm -rf "$R" "$R.out"
done
