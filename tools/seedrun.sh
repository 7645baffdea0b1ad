#!/bin/bash
# seedrun.sh ID...  applies each seeded bug to /repo, runs its property's quick check from a copy of /verif, undoes it
# (TIER=thorough for the thorough check, PROP=Cxx for the check of another property)
d=$(mktemp -d /tmp/seedrun.XXXXXX)
mkdir "$d/verif"
(cd /verif && cp -a check.sh gosym harness setup.sh KNOWN_FINDINGS.txt properties.jsonl "$d/verif/")
mkdir -p "$d/verif/evidence" "$d/verif/out"
trap 'git -C /repo checkout -q -- .; rm -rf "$d"' EXIT
cd "$d/verif" || exit 1
for id in "$@"; do
  p=${PROP:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
  git -C /repo apply "/verif/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  s=$SECONDS
  timeout 900 ./check.sh "$p" "${TIER:-quick}" > "/tmp/seed_$id.log" 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $((SECONDS-s))s $(grep -m1 -o 'VIOLATION.*' "/tmp/seed_$id.log" | cut -c1-120)"
done
