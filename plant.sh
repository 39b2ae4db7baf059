#!/bin/bash
# dev: plant.sh ID  — turn /repo's uncommitted edit into seeded/ID/patch.diff and undo it; then run demo + check against it
# usage: plant.sh save ID | try ID [secs]
D=/verif/seeded/$2
case $1 in
save) mkdir -p $D; git -C /repo diff > $D/patch.diff; git -C /repo checkout -q -- .; [ -s $D/patch.diff ] && echo saved $(wc -l < $D/patch.diff);;
try) P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  git -C /repo apply $D/patch.diff || exit 1
  cd /verif; DST_SECONDS=${3:-20} timeout 600 python3 check.py $P quick > /tmp/plant/$2.out 2>&1; rc=$?
  git -C /repo checkout -q -- .
  grep -a "violated\|VIOLATION\|BUILD\|runs (" /tmp/plant/$2.out | cut -c1-300; echo "$2 $P rc=$rc";;
esac
if [ "$1" = demo ]; then   # demo on the unchanged tree and with the patch
  cd /repo; bash $D/demo.sh >/tmp/plant/$2.demo0 2>&1; a=$?
  git apply $D/patch.diff && ninja -C _build eckit eckit_codec eckit_distributed eckit_option >/tmp/plant/$2.b 2>&1 || tail -5 /tmp/plant/$2.b
  bash $D/demo.sh >/tmp/plant/$2.demo1 2>&1; b=$?; tail -1 /tmp/plant/$2.demo1
  git checkout -q -- .; ninja -C _build eckit eckit_codec eckit_distributed eckit_option >/dev/null 2>&1; echo "$2 demo unchanged $a patched $b"
fi
