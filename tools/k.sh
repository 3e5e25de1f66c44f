#!/bin/bash
# k.sh file.cpp harness opts
f=$1; h=$2; shift 2
V=/verif; R=${R:-/repo}; o=/tmp/k_$h
INC="-I$V/rt -I$V/stubs -I$V/harness"; for d in core/modules/core core/modules/mem_mdlw core/modules/socket_mdlw core/modules/zmq_mdlw high_performance/modules/high_performance state_machine/modules/state_machine state_machine/modules/json_conf serialization/modules/serialization; do INC="$INC -I$R/$d/include"; done
CF="-std=c++17 -fsanitize=thread -mllvm -tsan-instrument-memory-accesses=0 -mllvm -tsan-instrument-func-entry-exit=0 -mllvm -tsan-instrument-atomics=0 -mllvm -tsan-instrument-memintrinsics=0 -O1 -g -fno-vectorize -fno-slp-vectorize -fno-strict-overflow -faligned-new -fno-stack-protector -fno-access-control -D_GLIBCXX_EXTERN_TEMPLATE=0 -D_FORTIFY_SOURCE=0 -DHAS_EPOLL -w -emit-llvm -DKSE_THOROUGH=${T:-0}"
src=$(grep -E '^//! src:' $f | sed 's/.*src://; s#\$R#'"$R"'#g; s#\$V#/verif#g')
fl=$(grep -E '^//! cflags:' $f | sed 's/.*cflags://; s#\$R#'"$R"'#g; s#\$V#/verif#g')
i=0; L=""
for s in $f $src; do i=$((i+1)); clang++-18 $CF $fl $INC -c $s -o $o.$i.bc || exit 1; L="$L $o.$i.bc"; done
llvm-link-18 $L $(ls $V/.build/support*.bc | grep -v ios) $(grep -qE '^//! support:.*support_ios' $f && echo $V/.build/support_ios.bc) -o $o.bc || exit 1
${KSE:-$V/.build/kse} $o.bc --entry=kse_main_$h --out=$o.json "$@"
