#!/bin/bash
# tools/hunt.sh ID [PROP...]: run checks (default: the bug's own property) against a scratch copy carrying the planted bug.
ID=$1; shift; B=/verif/seeded/$ID; W=/tmp/hunt_$ID
P=${@:-$(python3 -c "import json;print(json.load(open('$B/meta.json'))['property'])")}
trap 'rm -rf "/tmp/hunt_$ID"' EXIT
cp -a /repo "$W"; git -C "$W" apply "$B/patch.diff" || exit 1
for p in $P; do
  s=$(date +%s)
  SIM_REPO_SRC=$W/src timeout 900 /opt/venv/bin/python -B /verif/check.py $p --seed ${SEED:-1} > /tmp/hunt_$ID.$p.log 2>&1; rc=$?
  echo "$ID $p rc=$rc $(( $(date +%s)-s ))s $(grep -m1 VIOLATION /tmp/hunt_$ID.$p.log)"
done
