#!/bin/bash
# tools_try.sh ID...: apply each seeded bug to /repo, run its property's quick check, undo
for b in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$b/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$b/patch.diff || continue
  s=$(date +%s)
  out=$(cd /verif && timeout 900 /opt/venv/bin/python checks/$p.py 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$b $p rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep -v '^VIOLATION' | tail -1 | cut -c1-260)"
done
