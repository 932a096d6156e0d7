#!/bin/bash
# tools/trysee.sh [quick|thorough] SEED...: run each seed's property check against a scratch copy with the seed applied
tier=quick; case "$1" in quick|thorough) tier=$1; shift;; esac
cd "$(dirname "$0")/.."
for id in "${@:-$(ls seeded)}"; do
  for i in $id; do
  prop=$(python3 -c "import json,sys;print(json.load(open('seeded/$i/meta.json'))['property'])")
  t=$(mktemp -d /tmp/see_XXXX); cp -a /repo $t/repo; rm -rf $t/v; mkdir $t/v; cp -a check.py check.sh replay.py symx harness known_findings.json MANIFEST.json properties.jsonl $t/v/; mkdir -p $t/v/evidence $t/v/replays
  git -C $t/repo apply "$PWD/seeded/$i/patch.diff" || echo APPLY-FAILED
  s=$(date +%s)
  (cd $t/v && VERIF_REPO=$t/repo VERIF_SEED=1 timeout 900 bash check.sh $prop $tier >$t/out 2>&1; echo "$i $prop rc=$? $(( $(date +%s)-s ))s $(grep -m1 VIOLATION $t/out | cut -c1-150)")
  [ -n "$VERBOSE" ] && tail -5 $t/out
  rm -rf "$t"
  done
done
