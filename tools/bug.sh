#!/bin/bash
# Developer tool: confirms a planted change (seeded/<id>) in a scratch clone and runs its property's check on it.
#   bug.sh new ID PROP   save the edits made in /tmp/wt as seeded/ID/patch.diff and reset the clone
#   bug.sh try ID [check|nocheck] [extra properties...]
set -u
WT=/tmp/wt; V=/verif
sync_wt() { if [ ! -d $WT ]; then git clone -q /repo $WT; fi; git -C $WT checkout -q -- . ; git -C $WT clean -fdq -e _build; git -C $WT pull -q --ff-only 2>/dev/null; }
case $1 in
sync) sync_wt;;
new) mkdir -p $V/seeded/$2; git -C $WT diff > $V/seeded/$2/patch.diff; git -C $WT checkout -q -- .; wc -l $V/seeded/$2/patch.diff;;
try)
  id=$2; sync_wt; P=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
  D=$(mktemp -d); cp -r $V/seeded/$id/. $D/; rm -f $D/*.diff $D/meta.json
  (cd $WT && timeout 300 bash $D/demo.sh >$D/log 2>&1); r=$?; [ $r = 0 ] || { echo "$id: DEMO FAILS ON CLEAN rc=$r"; tail -5 $D/log; }
  git -C $WT apply $V/seeded/$id/patch.diff || { echo "$id: PATCH DOES NOT APPLY"; exit 1; }
  (cd $WT && timeout 300 bash $D/demo.sh >$D/log 2>&1); r=$?; [ $r != 0 ] && echo "$id: demo fails with patch (rc=$r) ok" || echo "$id: DEMO PASSES WITH PATCH"
  tail -2 $D/log
  if [ "${3:-check}" != notest ]; then
  (cd $WT && cmake -S . -B _build -G Ninja -DCMAKE_CXX_COMPILER=/usr/bin/g++ -DCMAKE_BUILD_TYPE=Debug -DKL_FETCH_DEPENDENCIES=OFF -DKL_TEST=ON -DKL_ENABLE_JSON=ON -DKL_ENABLE_YAML=OFF -DKL_DISABLE_CCACHE=ON -DCMAKE_PROJECT_INCLUDE=/opt/vp/support/rapidjson-target.cmake >/dev/null && ninja -C _build >$D/build.log 2>&1) || { echo "$id: BUILD FAILS"; tail -20 $D/build.log; }
  mkdir -p $D/rep; /usr/bin/python3 /opt/vp/support/run_catch.py $WT/_build/tests/kl-tests $D/rep >/dev/null 2>&1; /usr/bin/python3 /opt/vp/results.py $D/out.json "junit:$D/rep/*.xml" >/dev/null 2>&1
  python3 - <<P
import json
a=json.load(open('$D/out.json'));b=json.load(open('/opt/vp/BASELINE.json'))
m=set(b['stable'])-set(a['passed']); print("$id: stable tests", "pass" if not m else "BROKEN "+str(sorted(m)[:5]))
P
  fi
  shift; shift; [ $# -gt 0 ] && shift
  for q in $P "$@"; do KL_REPO=$WT timeout 900 $V/check $q | tail -3; echo "$id: check $q rc=${PIPESTATUS[0]}"; done
  git -C $WT checkout -q -- .; rm -rf "$D";;
esac
