#!/bin/bash
# fixcommit.sh "fix: message"  -- rebuild, run the stable tests, commit /repo's working tree
cd /repo || exit 1
bash /opt/vp/build.sh > /tmp/fix_build.log 2>&1 || { tail -30 /tmp/fix_build.log; exit 1; }
bash /opt/vp/test.sh /tmp/fix_out.json > /tmp/fix_test.log 2>&1
python3 - <<'P' || exit 1
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/fix_out.json'))
def names(x,k):
    for key in k:
        if key in x: return set(x[key])
    return set()
st=names(b,['stable','passed','tests','pass']); ps=names(o,['passed','pass'])
miss=sorted(st-ps)
print("stable",len(st),"missing",miss)
sys.exit(1 if miss or not st else 0)
P
git add -A src include && git commit -qm "$1" && git log --oneline | head -1
