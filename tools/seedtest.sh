#!/bin/bash
# build and run the four tests of the repository copy $1
r=$1; cd $r || exit 1
for t in tests/*.cpp; do b=$(basename $t .cpp); (g++ -std=c++17 -march=haswell -w -D_USE_MATH_DEFINES -DNOMINMAX -Iinclude -Itests $t source/*.cpp -o $r/$b.x && timeout 60 $r/$b.x >/dev/null) & pids+=($!); done
rc=0; for p in ${pids[@]}; do wait $p || rc=1; done
for h in version hex tone-mapping color-space color flags matrix/transform brdf ibl sh packed-vector; do printf '#include <cassert>\n#include <cstdlib>\n#include "math/%s.hpp"\n' $h | g++ -std=c++17 -march=haswell -w -D_USE_MATH_DEFINES -DNOMINMAX -Iinclude -fsyntax-only -x c++ - || rc=1; done
exit $rc
