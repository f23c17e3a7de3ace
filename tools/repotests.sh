# compiles and runs the repository's own tests that build.sh leaves out (they need refl-cpp and mp-units: stubs) -- NAMES as module/test
mkdir -p /tmp/rt/catch2; cd /tmp/rt; printf "#include <catch2/catch_all.hpp>\nusing Catch::Approx;\n" > catch2/catch.hpp
for t in "$@"; do
 m=${t%/*}; n=${t#*/}
 I="-I/verif/stubs -I/tmp/rt"; for d in core serialiser disruptor majordomo services zmq client; do I="$I -I/repo/src/$d/include"; done
 ( g++-14 -std=c++23 -O0 -g0 ${FL} $I -I/repo/src/$m/test /repo/src/$m/test/$n.cpp -o $n -lCatch2Main -lCatch2 -lpthread >$n.log 2>&1 || { echo "$t: compile failed"; grep -m3 error $n.log; exit; }
 timeout 120 ./$n >$n.out 2>&1; echo "$t rc=$? $(tail -3 $n.out | tr '\n' ' ')" ) &
done; wait; rm -rf /tmp/rt
