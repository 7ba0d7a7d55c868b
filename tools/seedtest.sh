#!/bin/bash
# tools/seedtest.sh ID [check...]: applies seeded/ID/patch.diff to /repo, checks that it builds, passes the stable
# tests, fails its demo, and which checks (default: that of its property) report it; undoes it and runs the demo again.
# Options by environment: NOTEST=1 skips the stable tests, NOCHECK=1 the checks.
set -u
ID=$1; shift
D=/verif/seeded/$ID
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
PROP=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
CHECKS=${*:-$(echo "$PROP" | tr A-Z a-z)}
T=$(mktemp -d /tmp/seedtest.XXXXXX)
cp -r "$D" "$T/seed"; rm -f "$T/seed/patch.diff" "$T/seed/meta.json"
undo() { git -C /repo checkout -q -- .; bash /opt/vp/build.sh > "$T/build2.log" 2>&1; }
git -C /repo apply "$D/patch.diff" || { echo "$ID: does not apply"; rm -rf "$T"; exit 1; }
if ! bash /opt/vp/build.sh > "$T/build.log" 2>&1; then echo "$ID: does not build"; tail -20 "$T/build.log"; undo; rm -rf "$T"; exit 1; fi
if [ -z "${NOTEST:-}" ]; then
    bash /opt/vp/test.sh "$T/out.json" > "$T/test.log" 2>&1
    python3 - "$T/out.json" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
st=b.get('passed') or b.get('stable') or b.get('tests') or b
miss=sorted(set(st)-set(o['passed']))
print('  tests:', 'ok' if not miss else 'FAIL '+' '.join(miss))
P
fi
(cd /repo && timeout 300 bash "$T/seed/demo.sh" > "$T/demo1.log" 2>&1); r=$?
echo "  demo with patch: $r  ($(tail -1 "$T/demo1.log"))"
if [ -z "${NOCHECK:-}" ]; then
    for c in $CHECKS; do
        s=$(date +%s)
        timeout 900 /verif/run.sh "$c" > "$T/check.log" 2>&1; r=$?
        echo "  $c: exit $r, $(grep -c '^VIOLATION' "$T/check.log") violation line(s), $(( $(date +%s) - s )) s; $(grep -m1 '^VIOLATION' "$T/check.log")"
        grep -m3 -i 'sig\|error:' "$T/check.log" | cut -c1-300
    done
fi
undo
(cd /repo && timeout 300 bash "$T/seed/demo.sh" > "$T/demo2.log" 2>&1); r=$?
echo "  demo without: $r  ($(tail -1 "$T/demo2.log"))"
git -C /repo status --short
rm -rf "$T"
