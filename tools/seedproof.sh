#!/bin/bash
# seedproof.sh: run only the obligations of each planted bug's property on a patched copy; print what fails
cd /verif
ids="${*:-$(ls seeded)}"
for id in $ids; do
  p=${id%%-*}; n=${p#C}
  d=$(mktemp -d /tmp/seedproof.XXXXXX)
  cp -a /repo/. "$d"/ && git -C "$d" apply "/verif/seeded/$id/patch.diff" || { echo "$id: does not apply"; rm -rf "$d"; continue; }
  out=""
  for m in oc$n oc${n}b oc${n}c oc${n}d; do
    [ -f tlv/pyver/$m.py ] || continue
    out="$out$(TLV_REPO=$d python3-vt tools/obligations.py $m | tr '\n' ' ')"
  done
  echo "$id: ${out:-no obligations}"
  rm -rf "$d"
done
