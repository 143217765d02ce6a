#!/bin/bash
# seedrun.sh [ids]: run each planted bug's check against a patched scratch copy (TLV_REPO), quick tier
cd /verif
for id in ${@:-$(ls seeded)}; do
  d=$(mktemp -d /tmp/seedrun_XXXX); cp -a /repo $d/repo; git -C $d/repo apply /verif/seeded/$id/patch.diff || echo "PATCH FAILS $id"
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  TLV_REPO=$d/repo timeout 900 python3-vt check.py $p quick > $d/out 2>&1; rc=$?
  echo "$id rc=$rc $(grep -m1 '^VIOLATION' $d/out | grep -o 'no-failing-input-found') $(grep -A1 -m1 '^VIOLATION' $d/out | tail -1 | cut -c1-110)"
  rm -rf $d
done
