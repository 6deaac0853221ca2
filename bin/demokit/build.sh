#!/bin/bash
# build.sh KITDIR OUTDIR demo.cpp: the engine of the current directory, the kit and the demonstration
set -e
kit=$(cd "$1" && pwd); out=$2; demo=$3; repo=$PWD
CXX=/usr/bin/clang++-18; [ -x $CXX ] || CXX=clang++
DEFS="-DSHIRAKAMI_LINUX -DINDEX_YAKUSHIMA -DYAKUSHIMA_EPOCH_TIME=40 -DPWAL -DHAVE_LIMESTONE_CONFIG_CTOR_NONE=1 -DHAVE_LIMESTONE_CONFIG_SET_DATA_LOCATION_STDFSPATH=1 -DHAVE_LIMESTONE_DATASTORE_CREATE_CHANNEL_NONE=1 -DKVS_MAX_PARALLEL_THREADS=12 -DYAKUSHIMA_MAX_PARALLEL_SESSIONS=12 -DPARAM_EPOCH_TIME=0 -DPARAM_RETRY_READ=0 -DPARAM_SNAPSHOT_EPOCH=25 -DPARAM_CHECKPOINT_REST_EPOCH=40 -DPARAM_PWAL_LOG_GCOMMIT_THRESHOLD=1000 -DPARAM_CPR_DIFF_SET_RESERVE_NUM=0 -DPROJECT_ROOT=/repo"
INC="-I$kit -I$kit/sim/stub -I$repo/include"
W="-std=c++17 -O1 -w -mcx16 -fno-pie $INC"
E="-std=c++17 -O1 -w -mcx16 -fno-pie -fno-omit-frame-pointer -fsanitize=thread -mllvm -tsan-instrument-func-entry-exit=0 -D_GLIBCXX_EXTERN_TEMPLATE=0 -include $kit/sim/core/shim.h $DEFS $INC -I$repo/src -I$repo/src/include -I$repo/third_party"
n=0
{
    for f in $(find "$kit/sim" -name '*.cpp' | sort); do echo "a$n $f $W"; n=$((n + 1)); done
    # a demonstration that drives a component runs under the scheduler itself
    if grep -q '"concurrency_control/' "$demo"; then echo "c$n $demo $E"; else echo "c$n $demo $W"; fi
    n=$((n + 1))
    for f in $(find src -name '*.cpp' | sort); do echo "b$n $f $E"; n=$((n + 1)); done
} | xargs -P 8 -L 1 bash -c 'o=$1; f=$2; shift 2; '"$CXX"' "$@" -c "$f" -o '"$out"'/$o.o' _
$CXX -no-pie -rdynamic -o "$out/demo" $(ls "$out"/a*.o) $(ls "$out"/b*.o) $(ls "$out"/c*.o) -lglog -ltbb -lboost_filesystem -ldl -lpthread
