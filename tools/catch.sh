#!/bin/bash
# catch.sh [id...]: runs each planted bug against its property's check (needs a clean /repo).
cd /verif || exit 1
[ -z "$(git -C /repo status --porcelain --untracked-files=no)" ] || { echo "/repo is not clean"; exit 1; }
ids="$*"; [ -n "$ids" ] || ids="$(ls seeded)"
for id in $ids; do
  p="$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' seeded/$id/meta.json)"
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  s=$(date +%s)
  out="$(VERIF_SEED=${VERIF_SEED:-1} bash run.sh $p 2>&1)"; rc=$?
  git -C /repo checkout -q -- .
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$p " <<<"$out"; then r=caught; else r="MISSED rc=$rc"; fi
  echo "$id $p $r $(($(date +%s)-s))s"
done
