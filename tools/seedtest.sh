#!/bin/bash
# bash tools/seedtest.sh <seed id> [nocheck|notest]
# Confirms a planted change in a scratch copy of /repo, bind-mounted over /repo
# in a private mount namespace: demo passes without it, the change builds, the
# stable tests pass, the demo fails with it, and whether the check reports it.
id=$1; mode=$2
if [ -z "$SEEDNS" ]; then
  scr=/tmp/seed.$id; rm -rf "/tmp/seed.$id"; mkdir -p $scr
  cp -a /repo $scr/repo; cp -a /verif/seeded/$id $scr/s; cp -a /opt/vp/ccache $scr/ccache
  mkdir $scr/verif; (cd /verif; cp -a *.sh *.py *.json *.jsonl rvm $scr/verif/)
  [ -d /verif/build ] && cp -a /verif/build $scr/verif/
  SEEDNS=$scr unshare -Urm bash $0 "$@"; rc=$?
  rm -rf "/tmp/seed.$id"; exit $rc
fi
scr=$SEEDNS
mount --bind $scr/repo /repo; mount --bind $scr/ccache /opt/vp/ccache; mount --bind $scr/verif /verif
prop=$(python3 -c "import json; print(json.load(open('$scr/s/meta.json'))['property'])")
patch=$scr/s/patch.diff; mkdir $scr/demo; cp -a $scr/s/. $scr/demo/; rm -f $scr/demo/patch.diff $scr/demo/meta.json
cd /repo
out="$id $prop:"
timeout 300 bash $scr/demo/demo.sh >$scr/d0.log 2>&1; a=$?
[ $a = 0 ] || { echo "$out DEMO FAILS ON CLEAN ($a)"; tail -5 $scr/d0.log; exit 1; }
git apply $patch || { echo "$out PATCH"; exit 1; }
bash /opt/vp/build.sh >$scr/b.log 2>&1 || { echo "$out BUILD"; tail -5 $scr/b.log; exit 1; }
timeout 300 bash $scr/demo/demo.sh >$scr/d1.log 2>&1; b=$?
[ $b != 0 ] || { echo "$out DEMO PASSES WITH PATCH"; exit 1; }
if [ "$mode" != notest ]; then
bash /opt/vp/test.sh $scr/t.json >$scr/t.log 2>&1
t=$(python3 -c "
import json; o=json.load(open('$scr/t.json')); b=json.load(open('/opt/vp/BASELINE.json'))
print([x for x in b['stable'] if x not in o['passed']])")
[ "$t" = "[]" ] || { echo "$out TESTS $t"; exit 1; }
fi
if [ "$mode" != nocheck ]; then
cd /verif; s=$(date +%s); VERIF_SEED=1 VERIF_TIER=quick bash check.sh $prop >$scr/c.log 2>&1; c=$?
out="$out check=$c $(( $(date +%s) - s ))s $(grep -m1 -A1 '^-- ' $scr/c.log | tr '\n' ' ' | cut -c1-300)"
[ $c = 1 ] && grep -q "VIOLATION property=$prop" $scr/c.log || out="$out  *** MISSED"
fi
echo "$out OK"
