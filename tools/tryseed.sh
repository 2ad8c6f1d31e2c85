#!/bin/bash
# tryseed.sh <id>...: builds, tests, demo and check of planted bugs in a scratch copy (never in /repo)
for id in "$@"; do
  s=/verif/seeded/$id; t=$(mktemp -d /tmp/seed.XXXX); git clone -q /repo $t/w || exit 1
  p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  ( cd $t/w; bash $s/demo.sh >/dev/null 2>&1; a=$?; git apply $s/patch.diff || echo APPLY-FAILED; bash $s/demo.sh >/dev/null 2>&1; b=$?
    cd /verif; IRV_REPO=$t/w timeout 900 python3-vt -m irv $p --tier quick >$t/out 2>&1; c=$?
    echo "$id $p demo clean=$a patched=$b check=$c $(grep -m1 VIOLATION $t/out | sed 's/replay=[^ ]*//')" ) 
  rm -rf $t
done
