#!/bin/bash
# try_bug.sh ID [test|CHECK]...: in a copy of /repo with seeded/ID/patch.diff
# applied, shown at /repo in a namespace of its own: build, demo (before and
# after) and, with "test", the stable tests, and with a check id, that check.
id=$1; shift
d=$(mktemp -d /tmp/bug_XXXXXX)
mkdir -p "$d/shg" "$d/demo" "$d/verif"
cp -a /repo "$d/repo"
cp -a /opt/shgpy_test/. "$d/shg/"
cp -a /verif/harness /verif/check /verif/known_findings.txt "$d/verif/"
cp -a "${SEEDED:-/verif/seeded}/$id/." "$d/demo/"
mv "$d/demo/patch.diff" "$d/patch.diff"
export D=$d ID=$id WHAT="$*"
unshare -Urm bash -c '
mount --bind $D/repo /repo; mount --bind $D/shg /opt/shgpy_test; mount --bind $D/verif /verif
cd /repo
bash $D/demo/demo.sh > $D/o1 2>&1; a=$?
git apply $D/patch.diff || { echo "$ID PATCH FAILS"; exit 1; }
bash /opt/vp/build.sh > $D/ob 2>&1 || echo "$ID BUILD FAILS"
bash $D/demo/demo.sh > $D/o2 2>&1; b=$?
echo "$ID demo clean=$a patched=$b $(tail -1 $D/o2 | cut -c1-150)"
[ $a = 0 ] || tail -5 $D/o1
for w in $WHAT; do
 if [ $w = test ]; then sed "s/--timeout=300/--timeout=2400/" /opt/vp/test.sh > $D/test.sh; bash $D/test.sh $D/t.json > $D/ot 2>&1
  python3 - $D/t.json $ID <<P
import json,sys
s=json.load(open("/opt/vp/BASELINE.json"))["stable"]; t=json.load(open(sys.argv[1]))
p=set(t["passed"] if "passed" in t else [k for k,v in t.items() if v in ("passed", "pass")])
bad=[x for x in s if x not in p]
print(sys.argv[2], "tests", "FAIL "+str(bad[:4]) if bad else "pass")
P
 else cd /verif; ./check $w --tier ${TIER:-quick} --seed ${SEED:-1} > $D/oc 2>&1; r=$?; echo "$ID check $w exit $r: $(grep -v "^C" $D/oc | head -1 | cut -c1-200)"; cd /repo
 fi
done'
rm -rf "$d"
