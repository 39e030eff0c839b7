#!/bin/bash
# tryseed.sh ID...: builds the patched tree in a scratch copy, runs stable tests of the default build quickly, the demo on both trees, and the check
R=/tmp/seedrepo
[ -d $R ] || cp -a /repo $R
for id in "$@"; do
  d=/verif/seeded/$id
  git -C $R checkout -q -- . ; git -C $R fetch -q /repo HEAD 2>/dev/null; git -C $R checkout -q --detach $(git -C /repo rev-parse HEAD)
  (cd /repo && bash $d/demo.sh >/tmp/ts_$id.clean 2>&1); c=$?
  git -C $R apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  # a private library build
  b=default; grep -q _build/flint $d/demo.sh && b=flint
  fl=""; [ $b = flint ] && fl=-I/usr/include/flint
  o=/tmp/seedobj; mkdir -p $o; ok=1
  for f in $(git -C $R diff --name-only); do case $f in *.hpp) all=1;; esac; done
  cp /repo/_build/$b/libfirefly.a $o/libfirefly.a
  for s in $(if [ -n "$all" ]; then ls $R/source/*.cpp; else git -C $R diff --name-only | sed "s,^,$R/,"; fi); do
    (g++ -std=gnu++14 -O2 -w -pthread -I$R/_build/$b/include -I$R/source/include $fl -c $s -o $o/$(basename $s).o || echo "$id: COMPILE ERROR $s") &
  done; wait; all=
  for s in $o/*.o; do ar r $o/libfirefly.a $s 2>/dev/null; done; rm -f $o/*.o
  mkdir -p $o/cwd/_build/$b; ln -sfn $R/_build/$b/include $o/cwd/_build/$b/include; ln -sfn $R/source $o/cwd/source; cp $o/libfirefly.a $o/cwd/_build/$b/
  (cd $o/cwd && bash $d/demo.sh >/tmp/ts_$id.bug 2>&1); g=$?
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  t0=$(date +%s)
  VH_REPO=$R VH_EVID=/tmp/w python3 /verif/tool/check.py $p >/tmp/ts_$id.check 2>/tmp/ts_$id.err; k=$?
  echo "$id: demo clean=$c patched=$g; check $p exit=$k ($(( $(date +%s)-t0 ))s) $(head -1 /tmp/ts_$id.check)"
  git -C $R checkout -q -- .
done
