#!/bin/bash
# catch.sh SEEDED-ID [CHECK...]: run a planted bug's property's check (or the given ones) against it. /repo itself
# is not touched: a patched scratch copy (/tmp/sc) is bound over it in a mount namespace of its own.
# /verif is a scratch copy too, so builds and evidence of the working directory stay as they are.
S=/tmp/sc
[ -d $S ] || cp -a /repo $S
mkdir -p /tmp/scv
id=$1; shift
d=/verif/seeded/$id
git -C $S checkout -q -- . ; git -C $S fetch -q /repo HEAD && git -C $S reset -q --hard FETCH_HEAD
props="$*"; [ -n "$props" ] || props=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ $id = none ] || git -C $S apply $d/patch.diff || exit 2
mkdir -p /tmp/scv/build; rm -rf /tmp/scv/checks /tmp/scv/sim /tmp/scv/tools
cp -a /verif/checks /verif/sim /verif/tools /verif/*.json* /verif/known_findings.txt /tmp/scv/ 2>/dev/null
for p in $props; do
  unshare -Urm bash -c "mount --bind $S /repo && mount --bind /tmp/scv /verif && cd /verif && VERIF_TIER=${VERIF_TIER:-quick} VERIF_SEED=${VERIF_SEED:-1} timeout 900 python3 /verif/checks/run.py $p" >/tmp/catch-$id-$p.out 2>&1; rc=$?
  echo "$id $p rc=$rc $(grep -m1 VIOLATION /tmp/catch-$id-$p.out) :: $(grep -v '^VIOL' /tmp/catch-$id-$p.out | tail -1 | cut -c1-250)"
done
