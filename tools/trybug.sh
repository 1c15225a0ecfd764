#!/bin/bash
# tools/trybug.sh BUG [--no-tests]: validates a planted change in a scratch copy (applies, builds, tests pass,
# demo fails with it and passes without it) and runs the check of its property on the copy.
id=$1; V=$(cd "$(dirname "$0")/.."; pwd); B=$V/seeded/$id; S=/tmp/trybug/$id
mkdir -p "$S"; [ -d "$S/repo" ] && find "$S/repo" -delete
mkdir -p "$S/repo"; (cd /repo && git archive HEAD) | tar -x -C "$S/repo"
( cd "$S/repo" && bash "$B/demo.sh" ) >"$S/demo0.log" 2>&1; d0=$?
( cd "$S/repo" && git init -q . 2>/dev/null; git -C "$S/repo" apply "$B/patch.diff" ) || { echo "$id: DOES NOT APPLY"; exit 1; }
( cd "$S/repo" && timeout 300 bash "$B/demo.sh" ) >"$S/demo1.log" 2>&1; d1=$?
t="tests skipped"
if [ "$2" != --no-tests ]; then
 t=""
 for c in std range-v3; do
  ty=Debug; r=OFF; [ $c = range-v3 ] && { ty=RelWithDebInfo; r=ON; }
  cmake -S "$S/repo" -B "$S/b-$c" -G Ninja -DCMAKE_BUILD_TYPE=$ty -DCMAKE_CXX_FLAGS=-fmax-errors=10 \
   -DFETCHCONTENT_FULLY_DISCONNECTED=ON -DFETCHCONTENT_TRY_FIND_PACKAGE_MODE=ALWAYS -DCO_ECS_ENABLE_TESTING=ON \
   -DCO_ECS_ENABLE_EXAMPLES=ON -DCO_ECS_ENABLE_BENCHMARKS=OFF -DCO_ECS_USE_RANGE_V3=$r >"$S/cfg-$c.log" 2>&1
  if ninja -C "$S/b-$c" >"$S/build-$c.log" 2>&1; then
   ctest --test-dir "$S/b-$c" -j8 --timeout 100 >"$S/test-$c.log" 2>&1 && t="$t $c:ok" || t="$t $c:TESTS-FAIL"
  else t="$t $c:NO-BUILD"; fi
  find "$S/b-$c" -delete
 done
fi
p=$(python3 -c "import json;print(json.load(open('$B/meta.json'))['property'])")
r=$(cd "$V" && VERIF_REPO="$S/repo" VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 checks/run.py "$p" 2>&1); rc=$?
echo "$id $p demo0=$d0 demo1=$d1 [$t ] check=$rc $(echo "$r" | grep -m1 VIOLATION)"
echo "$r" > "$S/check.log"
find "$S/repo" -delete
