#!/bin/bash
# seedrun.sh [-t] ID...: demo on the clean tree, then apply, (-t: build+tests), demo, check, undo
T=0; [ "$1" = -t ] && { T=1; shift; }
V=/verif
for id in "$@"; do
  P=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
  bash $V/seeded/$id/demo.sh >/tmp/seed_$id.d0 2>&1; a=$?
  git -C /repo apply $V/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  t=-; if [ $T = 1 ]; then bash /opt/vp/test.sh /tmp/seed_$id.json >/tmp/seed_$id.t 2>&1; t=$(python3 -c "import json;d=json.load(open('/tmp/seed_$id.json'));print(len(d['passed']),d['failed'])"); fi
  bash $V/seeded/$id/demo.sh >/tmp/seed_$id.d1 2>&1; b=$?
  s=$(date +%s); (cd $V && timeout 900 bash check.sh $P) >/tmp/seed_$id.c 2>&1; c=$?; e=$(date +%s)
  git -C /repo checkout -- .
  echo "$id $P demo $a/$b tests $t check $c $((e-s))s $(grep -m1 VIOLATION /tmp/seed_$id.c)"
done
