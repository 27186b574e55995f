#!/bin/bash
# applies each planted change in a scratch copy of /repo and runs the check of its property on that copy
cd "$(dirname "$0")/.."
ids=${*:-$(ls seeded)}
one() {
  i=$1; p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  d=$(mktemp -d /tmp/rs.XXXXXX); v=$d/verif; git clone -q /repo $d/repo; git -C $d/repo apply $PWD/seeded/$i/patch.diff || echo "$i DOES NOT APPLY"
  mkdir $v; cp -r check.py contracts pyvc world spec replay known_findings.jsonl $v/
  (cd $v; PV_REPO=$d/repo VERIF_SEED=1 timeout 900 python3-vt check.py $p > $d/out.txt 2>&1; echo "rc=$?" >> $d/out.txt)
  echo "$i $p $(grep -c '^VIOLATION' $d/out.txt) $(tail -1 $d/out.txt) $(grep -m1 '^VIOLATION' $d/out.txt | grep -o 'no-failing.*') | $(grep -m1 '^failed obl\|^failing inp' $d/out.txt | cut -c1-150) | $(grep -m1 "^$p:" $d/out.txt)"
  rm -rf $d
}
export -f one
printf '%s\n' $ids | xargs -P 3 -I{} bash -c 'one {}'
