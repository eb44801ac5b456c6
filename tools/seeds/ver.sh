#!/bin/bash
# ver.sh ID... : verify seeds in /repo
for id in "$@"; do
  S=/verif/seeded/$id
  [ -z "$(git -C /repo status --porcelain)" ] || { echo dirty; exit 2; }
  cd /repo
  bash /opt/vp/build.sh >/dev/null 2>&1
  bash $S/demo.sh >/tmp/seeds/$id.clean 2>&1; c=$?
  git apply $S/patch.diff || { echo "$id NOAPPLY"; continue; }
  bash /opt/vp/build.sh >/tmp/seeds/$id.build 2>&1; b=$?
  bash /opt/vp/test.sh /tmp/seeds/t.json >/tmp/seeds/$id.tests 2>&1
  t=$(tail -1 /tmp/seeds/$id.tests)
  bash $S/demo.sh >/tmp/seeds/$id.bad 2>&1; x=$?
  git checkout -q -- .
  echo "$id clean=$c build=$b tests=[$t] patched=$x $([ $c = 0 ] && [ $b = 0 ] && [ $x != 0 ] && echo "$t" | grep -q '53 passed, 0 failed' && echo OK || echo BAD)"
done
