#!/bin/bash
# tools/bug.sh ID [notest]: confirm a planted bug in a scratch copy: applies, demo passes without / fails with it, stable tests pass.
. /opt/vp/env.sh
ID=$1; B=/verif/seeded/$ID; W=/tmp/bw_$ID
trap 'rm -rf "/tmp/bw_$ID" "/tmp/bwd_$ID"' EXIT
cp -a /repo "$W"; mkdir -p /tmp/bwd_$ID; cp $B/* /tmp/bwd_$ID/
cd "$W"; export PYTHONPATH=$W/src
timeout 300 bash /tmp/bwd_$ID/demo.sh >/tmp/bw_$ID.clean 2>&1; a=$?
git apply $B/patch.diff || { echo "$ID: does not apply"; exit 1; }
timeout 300 bash /tmp/bwd_$ID/demo.sh >/tmp/bw_$ID.bug 2>&1; b=$?
echo "$ID: demo clean=$a bug=$b"
tail -2 /tmp/bw_$ID.bug
[ "$a" = 0 ] || tail -3 /tmp/bw_$ID.clean
if [ "$2" != notest ]; then
  J=/tmp/bw_$ID.xml
  timeout 1500 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -p no:xdist --timeout=300 --continue-on-collection-errors --tb=short --no-showlocals -o junit_family=xunit2 --junitxml=$J src docs tests >/tmp/bw_$ID.tests 2>&1
  sed "s,\"/repo\",\"$W\"," /opt/vp/stable_ids.py > /tmp/bw_$ID.sid.py; /opt/venv/bin/python /tmp/bw_$ID.sid.py $J >/dev/null 2>&1
  python3 /opt/vp/results.py /tmp/bw_$ID.json junit:$J >/dev/null
  python3 - $ID <<'P'
import json,sys
r=json.load(open(f"/tmp/bw_{sys.argv[1]}.json")); base=json.load(open("/opt/vp/BASELINE.json"))
def ids(d,k):
    v=d.get(k,[]); return set(v)
st=set(base.get("stable_pass") or base.get("passed") or base.get("stable") or [])
ok=set(r.get("passed",[]))
print(sys.argv[1],"stable",len(st),"failing stable:",len(st-ok),sorted(st-ok)[:4])
P
fi
