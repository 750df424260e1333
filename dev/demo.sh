#!/bin/bash
# cwd: the built repository. Compiles the program beside this file against the library and runs it.
W=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
M=$(ls -d /opt/bezdeps/main/lib/python3*/site-packages/cmeel.prefix | head -1)
H=$(ls -d /opt/bezdeps/hcd/lib/python3*/site-packages/cmeel.prefix | head -1)
O=$(mktemp -d) || exit 9
g++ -std=gnu++17 -O0 -w -DUSE_GLPK_SOLVER=1 -DBOOST_MPL_LIMIT_LIST_SIZE=30 -DBOOST_MPL_LIMIT_VECTOR_SIZE=30 \
 -I"$W" -I"$R/include" -isystem "$M/include" -isystem "$M/include/eigen3" -isystem "$H/include" -isystem "$H/include/cddlib" -isystem "$H/include/coin" \
 "$W/demo.cpp" EXTRA -o "$O/demo" -rdynamic -L"$R/_build" -lhpp-bezier-com-traj -L"$H/lib" -lhpp-centroidal-dynamics -L"$M/lib" -lboost_serialization \
 -Wl,-rpath,"$R/_build:$M/lib:$H/lib" -Wl,-rpath-link,"$M/lib:$H/lib" || { echo "demo does not compile"; rm -rf "$O"; exit 9; }
LD_LIBRARY_PATH="$R/_build:$M/lib:$H/lib" timeout 120 "$O/demo"
S=$?
rm -rf "$O"
exit $S
