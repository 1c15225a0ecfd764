#!/bin/bash
# tools/tryref.sh ID [PROP...]: a behaviour-preserving edit (refactors/ID.diff) must leave the checks quiet
id=$1; shift; V=$(cd "$(dirname "$0")/.."; pwd); S=/tmp/tryref/$id
mkdir -p "$S"; [ -d "$S/repo" ] && find "$S/repo" -delete
mkdir -p "$S/repo"; (cd /repo && git archive HEAD) | tar -x -C "$S/repo"
( cd "$S/repo" && git init -q . 2>/dev/null; git apply "$V/refactors/$id.diff" ) || { echo "$id: DOES NOT APPLY"; exit 1; }
props=${*:-$(python3 -c "import json;print(*[c['property'] for c in json.load(open('$V/MANIFEST.json'))['checks']])")}
out=""
for p in $props; do
 r=$(cd "$V" && VERIF_REPO="$S/repo" VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 checks/run.py "$p" 2>&1); rc=$?
 echo "$r" > "$S/$p.log"
 u=$(echo "$r" | grep -oE '[0-9]+ undecided' | head -1 | cut -d' ' -f1)
 [ $rc != 0 ] && out="$out $p:EXIT$rc"
 [ "${u:-0}" != 0 ] && out="$out $p:und=$u"
done
echo "$id:${out:- quiet}"
find "$S/repo" -delete
