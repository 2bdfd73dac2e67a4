#!/bin/bash
# try.sh SEED...: applies a planted bug to /repo, runs its property's check, restores /repo
for s in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$s/patch.diff || exit 2
  r=$(cd /verif && python3-vt check.py $p 2>&1 | grep -E 'VIOLATION|^OK' | head -1)
  git -C /repo checkout -- .
  echo "$s [$p] $r"
done
