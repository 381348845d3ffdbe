#!/bin/bash
# demo.sh TREE: build demo.cc against TREE (a checkout of the repository) and run every case.
set -u
T=${1:?}; D=$(mktemp -d); H=$(cd "$(dirname "$0")"; pwd)
DEF=; grep -q 'virtual int connect' $T/src/frn/lib/net/sysi.h && DEF=-DHAVE_CONNECT
S=$(find $T/src -name '*.cc' ! -name 'exp_*')
g++ -std=gnu++17 -O1 -march=native -include cstdint -pthread $DEF -I$T/src $H/demo.cc $S -o $D/demo.x || exit 3
cd $D
for c in hash eof local drain asyncerr port ips mult checkbound rectable input7 input2 tostring submatrix connect listenfd errfd; do
  timeout 20 ./demo.x $c >/dev/null 2>&1; echo "$c $?"
done
cd /; rm -r "$D"
