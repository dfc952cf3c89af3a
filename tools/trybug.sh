#!/bin/bash
# tools/trybug.sh ID [checks...]   confirm /verif/seeded/ID in private copies:
# demo passes unchanged, patch applies and builds, the stable tests pass, the
# demo fails, and the check of its property (and others named) reports it.
# Needs unshare -Urm; changes nothing in /repo, /verif or /opt/vp/work.
id=$1; shift
T=$(mktemp -d /tmp/tb.XXXXXX)
trap '/bin/rm -rf "$T"' EXIT
cp -a /repo "$T/repo"; cp -a /opt/vp/work "$T/work"; mkdir "$T/verif"
(cd /verif && tar cf - --exclude=.git --exclude=seeded . ) | tar xf - -C "$T/verif"
cp -a "/verif/seeded/$id" "$T/bug"
prop=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
export T id prop CHECKS="$prop $*" SKIPTESTS
timeout 3000 unshare -Urm bash -c '
mount --bind $T/repo /repo; mount --bind $T/verif /verif; mount --bind $T/work /opt/vp/work
cd /repo
r=""
git checkout -q -- . 2>/dev/null
bash /opt/vp/build.sh >$T/b0.log 2>&1 || r="$r build0!"
timeout 300 bash $T/bug/demo.sh >$T/d0.log 2>&1 || r="$r DEMO-FAILS-UNCHANGED($(tail -c 150 $T/d0.log))"
git apply $T/bug/patch.diff || r="$r NOAPPLY"
bash /opt/vp/build.sh >$T/b1.log 2>&1 || r="$r NOBUILD"
timeout 300 bash $T/bug/demo.sh >$T/d1.log 2>&1 && r="$r DEMO-PASSES-PATCHED"
if [ -z "$SKIPTESTS" ]; then
bash /opt/vp/test.sh $T/out.json >$T/t.log 2>&1
r="$r $(python3 - <<E
import json
b=json.load(open("/opt/vp/BASELINE.json")); o=json.load(open("$T/out.json"))
bad=[t for t in b["stable"] if t not in set(o["passed"])]
print("TESTS-FAIL(%d: %s)"%(len(bad),bad[:2]) if bad else "tests-ok")
E
)"
fi
cd /verif
for c in $CHECKS; do
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check $c >$T/c.log 2>&1; rc=$?
  v=$(grep -c "^VIOLATION property=$c " $T/c.log)
  if [ $rc = 1 ] && [ $v -gt 0 ]; then r="$r $c:CAUGHT"; else r="$r $c:missed(rc=$rc)"; fi
  grep "^VIOLATION" $T/c.log | head -1 | cut -c1-160 >>$T/v.log
done
echo "$id [$prop]$r | $(head -1 $T/v.log)"
'
