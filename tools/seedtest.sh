#!/bin/bash
# seedtest.sh ID...: tries planted bugs in throw-away copies of /repo and /verif (private mount namespace).
# Prints for each: apply/build/tests/demo on both trees, and what the property's quick check says.
one() {
id=$1
W=/tmp/seedtest-$id
[ -n "$id" ] && rm -rf "/tmp/seedtest-$id"
mkdir -p $W/verif/build $W/demo
cp -a /repo $W/repo
for f in check.py vf spec drivers tools MANIFEST.json properties.jsonl KNOWN_FINDINGS.txt; do cp -a /verif/$f $W/verif/; done
mkdir -p $W/verif/evidence $W/verif/build/ccache /verif/build/ccache
cp -a /verif/seeded/$id/. $W/demo/; rm -f $W/demo/*.diff $W/demo/meta.json
prop=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
export id W prop CHECKS
unshare -m bash -c '
mount --bind $W/repo /repo
mount --bind /verif/build/ccache $W/verif/build/ccache
mount --rbind $W/verif /verif
cd /repo
r="$id ($prop):"
git checkout -q -- .
bash /opt/vp/build.sh >$W/build0.log 2>&1 || r="$r BASEBUILD-FAILS"
timeout 300 bash $W/demo/demo.sh >$W/demo0.log 2>&1 && r="$r demo-clean-ok" || r="$r DEMO-FAILS-ON-CLEAN"
if git apply /tmp/seedpatch-$id.diff; then :; else echo "$r DOES-NOT-APPLY"; exit; fi
bash /opt/vp/test.sh $W/out.json >$W/test.log 2>&1
r="$r $(python3 - <<P
import json
b=set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); o=json.load(open("$W/out.json"))
miss=sorted(b-set(o["passed"]))
print("tests-ok" if not miss else "TESTS-FAIL:%d %s"%(len(miss),miss[:3]))
P
)"
timeout 300 bash $W/demo/demo.sh >$W/demo1.log 2>&1 && r="$r DEMO-PASSES-WITH-BUG" || r="$r demo-detects"
for c in ${CHECKS:-$prop}; do
( cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $c >$W/check-$c.log 2>&1; echo $? >$W/rc )
rc=$(cat $W/rc)
if [ $rc = 1 ] && grep -q "VIOLATION property=$c" $W/check-$c.log; then r="$r CAUGHT-by-$c"; else r="$r missed-by-$c(rc=$rc)"; fi
done
echo "$r" | tee $W/result
'
[ -n "$id" ] && rm -rf "/tmp/seedtest-$id/repo" "/tmp/seedtest-$id/verif"
}
for i in "$@"; do cp /verif/seeded/$i/patch.diff /tmp/seedpatch-$i.diff; done
for i in "$@"; do mkdir -p /tmp/seedtest-$i; one $i; rm -f /tmp/seedpatch-$i.diff; done
