#!/bin/bash
# seedrun.sh ID...: run the check of each planted bug's property with the bug applied to /repo.
cd /verif
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "/repo is dirty"; exit 1; }
  git -C /repo apply /verif/seeded/$id/patch.diff || continue
  s=$(date +%s); timeout 900 ./run.sh $p quick > /tmp/seedrun.$id.log 2>&1; r=$?
  git -C /repo checkout -q -- .
  echo "$id $p exit=$r $(( $(date +%s)-s ))s $(grep -m2 -E '^VIOLATION|MISMATCH|VACUOUS' /tmp/seedrun.$id.log | cut -c1-150)"
done
