#!/bin/bash
# seed.sh <id>...: confirms planted bugs in a scratch copy: applies, builds, tests pass, demo 0 without and nonzero with it; then runs the property's check
W=/tmp/seedwt
for id in "$@"; do
  S=/verif/seeded/$id
  rm -rf /tmp/seedwt; mkdir -p $W/demo; cp -a /repo/src /repo/test /repo/CMakeLists.txt $W/
  cp $S/* $W/demo/; rm -f $W/demo/*.diff $W/demo/meta.json
  [ "$(git -C /repo status --short)" ] && { echo "repo dirty"; exit 1; }
  (cd /repo && timeout 300 bash $W/demo/demo.sh >$W/demo0.log 2>&1); a=$?
  (cd $W && git apply --include='src/*' $S/patch.diff) || { echo "$id: patch does not apply"; continue; }
  cmake -S $W -B $W/_build -G Ninja -DBUILD_TESTING=ON -DCMAKE_CXX_FLAGS="-isystem /opt/vp/compat -include cstdint" -DCMAKE_CXX_STANDARD_LIBRARIES="-lCatch2Main -lCatch2" >/dev/null 2>&1
  ninja -C $W/_build >$W/build.log 2>&1 || { echo "$id: build fails"; grep -m3 error $W/build.log; continue; }
  t=$(ctest --test-dir $W/_build -j4 --timeout 60 2>&1 | grep "tests passed")
  (cd $W && timeout 300 bash $W/demo/demo.sh >$W/demo1.log 2>&1); b=$?
  p=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  s=$(date +%s); VERIF_REPO=$W timeout 900 python3 /verif/check.py $p >$W/check.log 2>&1; c=$?
  echo "$id: demo0=$a demo1=$b | $t | $p check=$c $(( $(date +%s)-s ))s $(grep -m1 VIOLATION $W/check.log)"
done
rm -rf /tmp/seedwt
