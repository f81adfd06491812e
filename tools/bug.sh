#!/bin/bash
# bug.sh ID [check]  - confirm a planted bug in a scratch copy: applies, tests pass, demo 0 unpatched / nonzero patched;
# with "check" also runs the property's check against the patched copy.
id=$1; B=/verif/seeded/$id
W=/tmp/bugwt_$id; rm -rf "$W"; mkdir -p "$W"
cp -a /repo/. "$W/" ; cd "$W" || exit 3
export PATH=/opt/venv/bin:$PATH PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
if [ -z "$NODEMO" ]; then bash $B/demo.sh > /tmp/bug_$id.d0 2>&1; echo "$id demo unpatched rc=$?"; fi
git apply $B/patch.diff || { echo "$id PATCH DOES NOT APPLY"; exit 3; }
if [ -z "$NODEMO" ]; then bash $B/demo.sh > /tmp/bug_$id.d1 2>&1; echo "$id demo patched rc=$?"; tail -2 /tmp/bug_$id.d1; fi
if [ -z "$NOTEST" ]; then
T=$(mktemp -d); HYPOTHESIS_STORAGE_DIRECTORY=$T/h timeout 840 python -m pytest -q -p no:cacheprovider -n 8 --timeout=300 --continue-on-collection-errors --basetemp=$T/tmp -o junit_family=xunit2 --junitxml=$T/j.xml riptable/tests > $T/log 2>&1
/usr/bin/python3 /opt/vp/results.py $T/o.json junit:$T/j.xml >/dev/null
python3 - $T/o.json $id <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
def ps(d):
    for k in ('passed','pass','stable','tests'):
        if k in d: return set(d[k])
    return set(k for k,v in d.items() if v in('passed','pass'))
miss=ps(b)-ps(o); print(sys.argv[2],"tests missing from pass:",len(miss),sorted(miss)[:3])
P
rm -rf "$T"
fi
if [ "$2" = check ]; then P=$(python3 -c "import json;print(json.load(open('$B/meta.json'))['property'])"); cd /verif; mkdir -p /tmp/ev_$id; PYVC_REPO=$W PYVC_EVID=/tmp/ev_$id python3-vt check.py ${3:-$P} 2>&1 | tail -${TAILN:-12}; fi
rm -rf "$W" /tmp/ev_$id
